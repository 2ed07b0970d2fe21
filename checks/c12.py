"""C12: filtering in pieces equals filtering at once.

Oracle: the difference equation of the transfer function a structure was
built from (scipy's lfilter, itself compared to a written-out loop in C10), on
the whole signal from rest; block splits and channel interleavings are
generated. Filters started in their steady state are compared to filtering a
signal which was preceded by a long constant one."""

import warnings

import numpy as np
import scipy.signal as sps
from hypothesis import strategies as st

import dsptoolbox as dsp
from checks.c10 import build, filt
from vt import gen
from vt.core import check, close, fail, raises, same, sub

PID = "C12"
FB = dsp.filterbanks
M = dsp.FilterBankMode
T = dsp.FilterCoefficientsType


def quiet():
    w = warnings.catch_warnings()
    w.__enter__()
    warnings.simplefilter("ignore")
    return w


def noise(seed, n, ch):
    return np.random.default_rng(seed + 5).standard_normal((n, ch)) * 0.4


def cuts(n, parts, seed):
    """Borders of random blocks, also blocks of one sample."""
    r = np.random.default_rng(seed + 9)
    c = np.sort(r.choice(np.arange(1, n), min(parts, n - 1), replace=False)) if n > 1 else []
    return [0, *[int(v) for v in c], n]


def sigof(x, fs):
    return dsp.Signal(None, x, fs, constrain_amplitude=False)


def full(s):
    return gen.full(s)


# ------------------------------------------------------------- Filter state
@sub(
    PID,
    gen.fd(
        c=filt(forms=["ba", "sos", "zpk", "fir", "first", "cfir"], k=3, taps=10),
        n=st.integers(4, 120),
        ch=st.integers(1, 3),
        parts=st.integers(1, 6),
        sub=st.booleans(),
        cplx=st.booleans(),
    ),
    quick=250,
)
def filter_blocks(k):
    """Blocks through a filter with state: the whole at once, on any channel
    selection; the start is the steady state of a constant input."""
    c, n, ch = k["c"], k["n"], k["ch"]
    flt, b, a = build(c)
    # steady state needs a finite gain at 0 Hz, given by the poles
    x = noise(c["seed"], n, ch)
    if k["cplx"]:
        x = x + 1j * noise(c["seed"] + 77, n, ch)
    fs = c["fs"]
    # any channels in any order
    rs = np.random.default_rng(c["seed"] + 21)
    sel = [int(v) for v in rs.permutation(ch)[: rs.integers(1, ch + 1)]] if k["sub"] else None
    w = quiet()
    try:
        whole = flt.copy()
        y1 = full(whole.filter_signal(sigof(x, fs), sel, activate_zi=True))
        # reset gives a new filter
        flt.initialize_zi(ch)
        for round_ in range(2):
            out = []
            bd = cuts(n, k["parts"], c["seed"])
            for i, j in zip(bd[:-1], bd[1:]):
                if j - i < ch:
                    # too short a block is transposed into channels
                    continue
                out.append((i, j, full(flt.filter_signal(sigof(x[i:j], fs), sel, activate_zi=True))))
            done = all(j - i >= ch for i, j in zip(bd[:-1], bd[1:]))
            if not done:
                return None
            y2 = np.concatenate([o[2] for o in out])
            close(y2, y1, "blocks" if not round_ else "blocks after initializing the state", 1e-9, scale=max(1.0, np.max(np.abs(y1))))
            flt.initialize_zi(ch)
    finally:
        w.__exit__(None, None, None)
    # steady state at the start
    pre = 4000 if c["form"] not in ("fir", "cfir") else 64
    z = np.r_[np.ones((pre, ch)), x]
    ref = sps.lfilter(b, a, z, axis=0)[pre:]
    cols = sel if sel is not None else list(range(ch))
    close(y1[:, cols], ref[:, cols], "steady-state start", 1e-6, scale=max(1.0, np.max(np.abs(ref))))
    rest = [i for i in range(ch) if i not in cols]
    same(np.asarray(y1[:, rest], complex), np.asarray(x[:, rest], complex), "channels not selected")
    # another number of channels begins anew
    m = 1 + c["seed"] % 4
    if m != ch and n >= m:
        w = quiet()
        try:
            x3 = noise(c["seed"] + 5, n, m)
            y3 = full(whole.filter_signal(sigof(x3, fs), activate_zi=True))
            new, _, _ = build(c)
            y4 = full(new.filter_signal(sigof(x3, fs), activate_zi=True))
        finally:
            w.__exit__(None, None, None)
        close(y3, y4, "after a signal with another number of channels", 1e-9, scale=max(1.0, np.max(np.abs(y4))))
    return f"{c['form']}{'-sel' if k['sub'] else ''}{'-cplx' if k['cplx'] else ''}"


@sub(
    PID,
    gen.fd(
        c=filt(forms=["ba", "sos", "fir", "first"], k=2, taps=8),
        n=st.integers(20, 100),
        seed=gen.seeds(),
    ),
    quick=60,
)
def filter_state_per_channel(k):
    """Filtering only one channel of a signal advances only the state of that
    channel."""
    c, n = k["c"], k["n"]
    flt, b, a = build(c)
    fs = c["fs"]
    r = np.random.default_rng(k["seed"])
    x = [noise(k["seed"] + i, n, 2) for i in range(4)]
    order = [int(v) for v in r.integers(0, 2, 4)]
    w = quiet()
    try:
        got = {0: [], 1: []}
        given = {0: [], 1: []}
        for blk, chn in zip(x, order):
            y = flt.filter_signal(sigof(blk, fs), chn, activate_zi=True).time_data
            got[chn].append(y[:, chn])
            given[chn].append(blk[:, chn])
            same(y[:, 1 - chn], blk[:, 1 - chn], "other channel")
    finally:
        w.__exit__(None, None, None)
    for chn in (0, 1):
        if given[chn]:
            g = np.concatenate(given[chn])
            z = np.r_[np.ones(4000), g]
            ref = sps.lfilter(b, a, z)[4000:]
            close(np.concatenate(got[chn]), ref, f"channel {chn}", 1e-6, scale=max(1, np.max(np.abs(ref))))
    return c["form"]


@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        forms=st.lists(st.sampled_from(["ba", "sos", "fir", "first", "cfir"]), min_size=1, max_size=3),
        mode=st.sampled_from(["Parallel", "Sequential", "Summed"]),
        n=st.integers(10, 90),
        ch=st.integers(1, 2),
        parts=st.integers(1, 4),
        fs=st.sampled_from(gen.FS),
        mb=st.booleans(),
    ),
    quick=120,
)
def bank_blocks(c):
    """A filter bank with state in every mode."""
    fs, n, ch = c["fs"], c["n"], c["ch"]
    fl = []
    for i, f in enumerate(c["forms"]):
        flt, _, _ = build(dict(seed=c["seed"] + i, k=2, form=f, odd=False, taps=7, lead=0, fs=fs))
        fl.append(flt)
    mode = M[c["mode"]]
    if c["mode"] == "Sequential" and c["forms"].count("cfir"):
        mode = M.Parallel
    nc = c["forms"].count("cfir")
    if mode is M.Parallel and nc and nc != len(c["forms"]):
        return None  # a multiband signal refuses to mix real and complex bands
    bank = dsp.FilterBank(fl)
    x = noise(c["seed"], n, ch)
    bd = cuts(n, c["parts"], c["seed"])
    if any(j - i < ch for i, j in zip(bd[:-1], bd[1:])):
        return None

    def run(bk, blk):
        s = sigof(blk, fs)
        if c["mb"] and mode is M.Parallel:
            m = dsp.MultiBandSignal([sigof(blk * (i + 1), fs) for i in range(len(fl))])
            o = bk.filter_multiband_signal(m, activate_zi=True)
        else:
            o = bk.filter_signal(s, mode, activate_zi=True)
        return np.stack([full(q).astype(complex) for q in o.bands], -1) if isinstance(o, dsp.MultiBandSignal) else full(o).astype(complex)

    w = quiet()
    try:
        b1, b2 = bank.copy(), bank.copy()
        y1 = run(b1, x)
        y2 = np.concatenate([run(b2, x[i:j]) for i, j in zip(bd[:-1], bd[1:])])
        close(y2, y1, "blocks", 1e-9, scale=max(1.0, np.max(np.abs(y1))))
        # a new start gives the same
        b2.initialize_zi(ch)
        close(run(b2, x), y1, "after initializing", 1e-9, scale=max(1.0, np.max(np.abs(y1))))
        # another number of channels starts anew
        other = noise(c["seed"] + 2, n, 3 - ch)
        close(run(b2, other), run(bank.copy(), other), "other number of channels", 1e-9, scale=max(1.0, np.max(np.abs(y1))))
        # the state fades: same as without it later on
        if mode is M.Parallel and not c["mb"]:
            long = np.r_[x, noise(c["seed"] + 1, 3000, ch)]
            ya = run(bank.copy(), long)
            o = bank.copy().filter_signal(sigof(long, fs), mode)
            yb = np.stack([full(q).astype(complex) for q in o.bands], -1)
            close(ya[-100:], yb[-100:], "start forgotten", 1e-6, scale=max(1.0, np.max(np.abs(yb))))
    finally:
        w.__exit__(None, None, None)
    return c["mode"]


@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        nf=st.integers(1, 4),
        order=st.sampled_from([1, 2, 3, 4, 8]),
        n=st.integers(10, 120),
        ch=st.integers(1, 3),
        parts=st.integers(1, 5),
        fs=st.sampled_from(gen.FS),
        mode=st.sampled_from(["Parallel", "Summed"]),
    ),
    quick=80,
)
def crossover_blocks(c):
    """Linkwitz-Riley crossover with state: pieces, and once the start is
    forgotten the same as without."""
    r = np.random.default_rng(c["seed"])
    fs, n, ch = c["fs"], c["n"], c["ch"]
    fr = np.sort(r.uniform(0.05, 0.4, c["nf"])) * fs
    w = quiet()
    try:
        mk = lambda: FB.linkwitz_riley_crossovers(list(fr), c["order"], fs)
        x = noise(c["seed"], n, ch)
        bd = cuts(n, c["parts"], c["seed"])
        if any(j - i < ch for i, j in zip(bd[:-1], bd[1:])):
            return None
        mode = M[c["mode"]]

        def run(bk, blk, **kw):
            o = bk.filter_signal(sigof(blk, fs), mode, **kw)
            return np.stack([q.time_data for q in o.bands], -1) if isinstance(o, dsp.MultiBandSignal) else o.time_data

        b1, b2 = mk(), mk()
        y1 = run(b1, x, activate_zi=True)
        y2 = np.concatenate([run(b2, x[i:j], activate_zi=True) for i, j in zip(bd[:-1], bd[1:])])
        close(y2, y1, "blocks", 1e-9)
        b2.initialize_zi(ch)
        close(run(b2, x, activate_zi=True), y1, "after initializing", 1e-9)
        # superposition: difference of two runs has no start
        z1 = run(mk(), 2 * x, activate_zi=True) - y1
        close(z1, run(mk(), x), "same filters with and without state", 1e-8, scale=max(1, np.max(np.abs(y1))))
        # the lowest crossover starts in the steady state of ones
        o = mk().filter_signal(sigof(np.ones((n, ch)), fs), M.Parallel, activate_zi=True)
        close(o.bands[0].time_data, np.ones((n, ch)), "steady start of the lowest band", 1e-6)
        if c["nf"] == 1:
            close(o.bands[1].time_data, np.zeros((n, ch)), "steady start of the highest band", 1e-6)
        # quadrature mirror filters (as any bank) keep their state, too
        lp = dsp.Filter.fir_filter(2 * c["order"] + 1, fs / 4, dsp.FilterPassType.Lowpass, fs) if c["nf"] % 2 else dsp.Filter.iir_filter(c["order"], fs / 4, dsp.FilterPassType.Lowpass, fs)
        q1, q2 = FB.qmf_crossover(lp), FB.qmf_crossover(lp)
        y1 = run(q1, x, activate_zi=True)
        y2 = np.concatenate([run(q2, x[i:j], activate_zi=True) for i, j in zip(bd[:-1], bd[1:])])
        close(y2, y1, "blocks of a mirror filter", 1e-9, scale=max(1, np.max(np.abs(y1))))
        z1 = run(FB.qmf_crossover(lp), 2 * x, activate_zi=True) - y1
        close(z1, run(FB.qmf_crossover(lp), x), "mirror filters with and without state", 1e-8, scale=max(1, np.max(np.abs(y1))))
    finally:
        w.__exit__(None, None, None)
    return f"{c['nf']}"


# ------------------------------------------------------- realtime structures
KINDS = ["fir", "iir", "statespace", "statespace-sos", "lattice", "lattice-sos", "lattice-fir",
         "warped-fir", "warped-iir", "kautz", "parallel", "chain"]


def polyD(b, lam):
    """Numerator and denominator of sum b_k D^k, D = (z^-1 - lam)/(1 - lam z^-1)."""
    N = len(b) - 1
    num = np.zeros(N + 1)
    for k, bk in enumerate(b):
        p = np.ones(1)
        for _ in range(k):
            p = np.convolve(p, [-lam, 1.0])
        for _ in range(N - k):
            p = np.convolve(p, [1.0, -lam])
        num = num + bk * p
    den = np.ones(1)
    for _ in range(N):
        den = np.convolve(den, [1.0, -lam])
    return num, den


def structure(c):
    """(realtime filter, reference(x 1D) -> y, filter_signal or None)"""
    kind, fs = c["kind"], c["fs"]
    r = np.random.default_rng(c["seed"])
    k = c["k"]
    d = dict(seed=c["seed"], k=k, odd=False, taps=c["taps"], lead=0, fs=fs, rmax=0.9)
    lf = lambda b, a: (lambda x: sps.lfilter(b, a, x))
    if kind == "fir":
        f, b, a = build(d | dict(form="fir"))
        return (FB.FIRFilter.from_filter(f) if c["alt"] else FB.FIRFilter(b.copy())), lf(b, a), None
    if kind == "iir":
        f, b, a = build(d | dict(form="first" if k == 1 and c["alt"] else "ba", odd=c["alt"]))
        return (FB.IIRFilter.from_filter(f) if c["seed"] % 2 else FB.IIRFilter(b.copy(), a.copy())), lf(b, a), None
    if kind == "statespace":
        form = ["first", "ba", "fir", "sos"][c["seed"] % 4]
        f, b, a = build(d | dict(form=form, odd=c["alt"] and form == "ba"))
        return FB.StateSpaceFilter.from_filter(f), lf(b, a), None
    if kind == "statespace-sos":
        f, b, a = build(d | dict(form="sos", odd=c["alt"]))
        return FB.FilterChain(FB.StateSpaceFilter.from_filter_as_sos_list(f)), lf(b, a), None
    if kind == "lattice":
        form = ["first", "ba"][c["seed"] % 2]
        f, b, a = build(d | dict(form=form, odd=c["alt"] and form == "ba"))
        q = FB.LatticeLadderFilter.from_filter(f)
        return q, lf(b, a), q
    if kind == "lattice-sos":
        f, b, a = build(d | dict(form="sos", odd=c["alt"]))
        q = FB.LatticeLadderFilter.from_filter(f)
        return q, lf(b, a), q
    if kind == "lattice-fir":
        # minimum-phase taps have reflection coefficients below 1
        z = r.uniform(0.1, 0.8, k) * np.exp(1j * r.uniform(0.1, 3, k))
        b = np.real(np.poly(np.r_[z, z.conj()])) * (r.uniform(0.3, 2) * r.choice([-1, 1]) if c["alt"] else 1.0)
        f = dsp.Filter.from_ba(b.copy(), [1.0], fs)
        q = FB.LatticeLadderFilter.from_filter(f)
        close(f.ba[0], b, "the source filter stays as it is", 1e-12)
        return q, lf(b, [1.0]), q
    lam = c["lam"]
    if kind == "warped-fir":
        f, b, a = build(d | dict(form="fir"))
        num, den = polyD(b, lam)
        q = FB.WarpedFIR.from_filter(f, lam) if c["alt"] else FB.WarpedFIR(b.copy(), lam, fs)
        return q, lf(num, den), q
    if kind == "warped-iir":
        f, b, a = build(d | dict(form="first" if k == 1 else "ba", odd=c["alt"] and k > 1))
        if c["seed"] % 2 == 0:  # any number of coefficients on either side
            b = r.uniform(-1, 1, int(r.integers(1, 7)))
            if r.random() < 0.3:
                a = np.array([float(r.uniform(0.5, 2))])
        L = max(len(b), len(a))
        bb, aa = np.r_[b, np.zeros(L - len(b))], np.r_[a, np.zeros(L - len(a))]
        num, _ = polyD(bb, lam)
        den, _ = polyD(aa, lam)
        q = FB.WarpedIIR.from_filter(f, lam) if c["seed"] % 2 else FB.WarpedIIR(b.copy(), a.copy(), lam, fs)
        return q, lf(num, den), q
    nr, nc = int(r.integers(0, 3)), int(r.integers(0, 3))
    if nr + nc == 0:
        nr = 1
    poles = np.r_[r.choice(np.linspace(-0.9, 0.9, 19)[np.r_[0:9, 10:19]], nr, replace=False) + 0j,
                  r.uniform(0.2, 0.9, nc) * np.exp(1j * np.linspace(0.4, 2.6, nc + 1)[:nc])]
    if kind == "kautz":
        q = FB.KautzFilter(poles, fs)
        cr, cc = r.uniform(-1, 1, nr), r.uniform(-1, 1, 2 * nc)
        q.set_filter_coefficients(cr.copy(), cc.copy())

        def ref(x):
            # orthonormal functions written out
            y, u = np.zeros(len(x)), x
            for i, p in enumerate(poles[:nr].real):
                y = y + cr[i] * np.sqrt(1 - p * p) * sps.lfilter([1], [1, -p], u)
                u = sps.lfilter([-p, 1], [1, -p], u)
            for i, p in enumerate(poles[nr:]):
                m, s = abs(p) ** 2, 2 * p.real
                A = [1, -s, m]
                y = y + cc[2 * i] * np.sqrt((1 - m) * (1 + m + s) / 2) * sps.lfilter([1, -1], A, u)
                y = y + cc[2 * i + 1] * np.sqrt((1 - m) * (1 + m - s) / 2) * sps.lfilter([1, 1], A, u)
                u = sps.lfilter([m, -s, 1], A, u)
            return y

        return q, ref, q
    if kind == "parallel":
        h = sps.lfilter(*[v for v in build(d | dict(form="ba"))[1:]], np.r_[1.0, np.zeros(255)])
        q = FB.ParallelFilter(poles, c["nfir"], fs)
        q.set_parameters(c["delay"], c["off"] * 1000.0 / fs)
        q.fit_to_ir(dsp.ImpulseResponse(None, h, fs, constrain_amplitude=False))
        g = q.get_ir(400).time_data[:, 0]
        # large sections that cancel each other: the fit is ill-conditioned
        # and the sum of the outputs has only rounding noise
        if max(np.max(np.abs(f.get_coefficients(dsp.FilterCoefficientsType.Ba)[0])) for f in q.filter_bank) > 1e3:
            return None, None, None
        return q, (lambda x: np.convolve(x, g)[: len(x)]), q
    # chain of two structures
    one, r1, _ = structure(c | dict(kind="iir"))
    two, r2, _ = structure(c | dict(kind="fir", seed=c["seed"] + 1))
    return FB.FilterChain([one, two]), (lambda x: r2(r1(x))), None


@sub(
    PID,
    gen.fd(
        kind=st.sampled_from(KINDS),
        seed=gen.seeds(),
        k=st.integers(1, 5),
        taps=st.integers(1, 8),
        fs=st.sampled_from(gen.FS),
        alt=st.booleans(),
        lam=gen.floats(-0.8, 0.8, 2),
        nfir=st.integers(0, 4),
        delay=st.sampled_from([0, 0, 1, 5]),
        off=st.sampled_from([0, 0, 2, 3]),
        n=st.integers(1, 60),
        ch=st.integers(1, 3),
    ),
    quick=500,
)
def structures(c):
    """Every realtime structure, sample by sample with interleaved channels:
    the transfer function it was built from; after a reset a new filter; and
    the vector processing is the same."""
    w = quiet()
    try:
        q, ref, vec = structure(c)
        if q is None:
            return None
        n, ch = c["n"], c["ch"]
        x = noise(c["seed"], n, ch)
        want = np.stack([ref(x[:, i]) for i in range(ch)], 1)
        q.set_n_channels(ch)
        r = np.random.default_rng(c["seed"] + 2)
        sc = max(1e-3, np.max(np.abs(want)))
        for round_ in range(3):
            got = np.zeros((n, ch))
            pos = [0] * ch
            if round_ == 1:
                # channels one after the other
                seq = [i for i in range(ch) for _ in range(n)]
            else:
                seq = list(r.permutation(np.repeat(np.arange(ch), n)))
            for i in seq:
                i = int(i)
                v = q.process_sample(float(x[pos[i], i]), i)
                check(np.ndim(v) == 0, f"output of one sample has shape {np.shape(v)}")
                got[pos[i], i] = v
                pos[i] += 1
            close(got, want, f"{c['kind']} round {round_}", 1e-7, scale=sc)
            q.reset_state()
        if vec is not None and n > ch:
            s = sigof(x, c["fs"])
            y = vec.filter_signal(s)
            close(y.time_data, want, f"{c['kind']} vector", 1e-7, scale=sc)
            check(y.sampling_rate_hz == c["fs"], "rate")
            if c["kind"].startswith("warped"):
                # the running filter goes on as if nothing had happened
                q.set_n_channels(ch)
                got = np.zeros((n, ch))
                for i in range(n):
                    if i in (1, n // 2, n - 1):
                        vec.filter_signal(sigof(noise(c["seed"] + 5, n, 1 + c["seed"] % 3), c["fs"]))
                    for k in range(ch):
                        got[i, k] = q.process_sample(float(x[i, k]), k)
                close(got, want, f"{c['kind']} with whole signals in between", 1e-7, scale=sc)
            raises(lambda: vec.filter_signal(sigof(x, c["fs"] + 1)), "other sampling rate")
    finally:
        w.__exit__(None, None, None)
    return c["kind"]


@sub(
    PID,
    gen.fd(seed=gen.seeds(), k=st.integers(1, 2), fs=st.sampled_from(gen.FS), n=st.integers(10, 80), ch=st.integers(1, 2),
           parts=st.integers(1, 4), sos=st.integers(0, 2)),
    quick=60,
)
def lattice_blocks(c):
    """Lattice filters keep their state between signals."""
    if c["sos"] == 2:
        r = np.random.default_rng(c["seed"])
        z = r.uniform(0.1, 0.8, c["k"]) * np.exp(1j * r.uniform(0.1, 3, c["k"]))
        b, a = np.real(np.poly(np.r_[z, z.conj()])), np.ones(1)
        f = dsp.Filter.from_ba(b.copy(), [1.0], c["fs"])
    else:
        f, b, a = build(dict(seed=c["seed"], k=c["k"], form="sos" if c["sos"] else "ba", odd=False, taps=3, lead=0, fs=c["fs"], rmax=0.9))
    q = FB.LatticeLadderFilter.from_filter(f)
    x = noise(c["seed"], c["n"], c["ch"])
    bd = cuts(c["n"], c["parts"], c["seed"])
    if any(j - i < c["ch"] for i, j in zip(bd[:-1], bd[1:])):
        return None
    q.set_n_channels(c["ch"])
    y = np.concatenate([q.filter_signal(sigof(x[i:j], c["fs"])).time_data for i, j in zip(bd[:-1], bd[1:])])
    close(y, sps.lfilter(b, a, x, axis=0), "blocks", 1e-8)
    q.reset_state()
    close(q.filter_signal(sigof(x, c["fs"])).time_data, sps.lfilter(b, a, x, axis=0), "after reset", 1e-8)
    for k in (1, 3):
        if k != c["ch"]:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                y = q.filter_signal(sigof(x[:, [0] * k], c["fs"])).time_data
            close(y, sps.lfilter(b, a, x[:, [0] * k], axis=0), f"{k} channels after {c['ch']}", 1e-8)
            break
    return ["ba", "sos", "fir"][c["sos"]]


@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        kind=st.sampled_from(["overlap-save", "partitioned", "multichannel"]),
        taps=st.integers(1, 70),
        block=st.integers(1, 40),
        blocks=st.integers(1, 8),
        ch=st.integers(1, 3),
        alt=st.booleans(),
        g=st.sampled_from([0.3, 1.0, 4.0]),
    ),
    quick=250,
)
def convolution(c):
    """Block convolution with any block and filter length, channels in any
    order within a block."""
    r = np.random.default_rng(c["seed"])
    B, ch, n = c["block"], c["ch"], c["block"] * c["blocks"]
    x = noise(c["seed"], n, ch)
    if c["kind"] == "multichannel":
        if c["taps"] < ch:
            return None
        b = r.standard_normal((c["taps"], ch)) * c["g"]
        w = quiet()
        try:
            q = FB.FIRUniformPartitionedMultichannel(b.copy())
            q.prepare(B)
        finally:
            w.__exit__(None, None, None)
        want = np.stack([np.convolve(x[:, i], b[:, i])[:n] for i in range(ch)], 1)
        for round_ in range(2):
            got = np.concatenate([q.process_block(x[i : i + B]) for i in range(0, n, B)])
            close(got, want, f"multichannel round {round_}", 1e-9, scale=max(1, np.max(np.abs(want))))
            q.reset_state()
        B = int(r.integers(1, 40))
        q.prepare(B)
        m = n // B * B
        if m:
            got = np.concatenate([q.process_block(x[i : i + B]) for i in range(0, m, B)])
            close(got, want[:m], "multichannel prepared again", 1e-9, scale=max(1, np.max(np.abs(want))))
        return c["kind"]
    b = r.standard_normal(c["taps"]) * c["g"]
    cls = FB.FIRFilterOverlapSave if c["kind"] == "overlap-save" else FB.FIRUniformPartitioned
    q = cls.from_filter(dsp.Filter.from_ba(b.copy(), [1.0], 48000)) if c["alt"] else cls(b.copy())
    q.prepare(B, ch)
    want = np.stack([np.convolve(x[:, i], b)[:n] for i in range(ch)], 1)
    for round_ in range(2):
        got = np.zeros((n, ch))
        if round_ and c["alt"]:
            # one channel completely before the next
            seq = [(i, k) for k in range(ch) for i in range(0, n, B)]
        else:
            seq = [(i, k) for i in range(0, n, B) for k in r.permutation(ch)]
        for i, k in seq:
            o = q.process_block(x[i : i + B, k].copy(), int(k))
            check(np.shape(o) == (B,), f"block shape {np.shape(o)}")
            got[i : i + B, k] = o
        close(got, want, f"{c['kind']} round {round_}", 1e-9, scale=max(1, np.max(np.abs(want))))
        if round_ == 0 or c["alt"]:
            q.reset_state()
    # prepared again for other blocks and channels, with or without a reset
    B, k = int(r.integers(1, 40)), int(r.integers(0, ch))
    q.prepare(B, k + 1)
    m = n // B * B
    if m:
        got = np.concatenate([q.process_block(x[i : i + B, k].copy(), k) for i in range(0, m, B)])
        close(got, want[:m, k], f"{c['kind']} prepared again", 1e-9, scale=max(1, np.max(np.abs(want))))
    return c["kind"]


@sub(
    PID,
    gen.fd(seed=gen.seeds(), fs=st.sampled_from(gen.FS), rel=gen.floats(0.005, 0.495, 3), res=gen.floats(0.05, 2.5, 2),
           n=st.integers(4, 120), ch=st.integers(1, 3), g=st.sampled_from([0.2, 1.0, 5.0])),
    quick=100,
)
def state_variable(c):
    """Low-, high-, band- and all-pass of the state-variable filter, per
    sample and vector; their sum relations; level kept."""
    fs, R = c["fs"], c["res"]
    q = FB.StateVariableFilter(c["rel"] * fs, R, fs)
    n, ch = c["n"], c["ch"]
    x = noise(c["seed"], n, ch) * c["g"]
    if n < ch:
        return None
    g = np.tan(np.pi * c["rel"])
    # s = (1 - z^-1) / (g (1 + z^-1))
    u, v = np.array([1.0, -1.0]), g * np.array([1.0, 1.0])
    uu, uv, vv = np.convolve(u, u), np.convolve(u, v), np.convolve(v, v)
    den = uu + R * uv + vv
    nums = [vv, uu, uv, uu - R * uv + vv]
    want = np.stack([sps.lfilter(p, den, x, axis=0) for p in nums], 1)
    o = q.filter_signal(sigof(x, fs))
    check(isinstance(o, dsp.MultiBandSignal) and o.number_of_bands == 4, "four bands")
    got = np.stack([b.time_data for b in o.bands], 1)
    close(got, want, "vector", 1e-8)
    q.set_parameters(c["rel"] * fs, R, ch)
    one = np.zeros((n, 4, ch))
    for i in range(n):
        for k in range(ch):
            one[i, :, k] = q.process_sample(float(x[i, k]), k)
    close(one, want, "sample by sample", 1e-8)
    # continues with its state, starts anew after a reset
    q.reset_state()
    h = n // 2
    if h >= ch:
        parts = [q.filter_signal(sigof(x[:h], fs)), q.filter_signal(sigof(x[h:], fs))]
        close(np.concatenate([np.stack([b.time_data for b in p.bands], 1) for p in parts]), want, "blocks", 1e-8)
    k = [2, 1, 1][ch - 1]
    y = np.stack([b.time_data for b in q.filter_signal(sigof(x[:, :k] if k <= ch else x[:, [0, 0]], fs)).bands], 1)
    close(y, want[:, :, :k] if k <= ch else want[:, :, [0, 0]], f"{k} channels after {ch}", 1e-8)
    ir = q.get_ir(64)
    d = np.zeros(64)
    d[0] = 1
    close(np.stack([b.time_data[:, 0] for b in ir.bands], 1), np.stack([sps.lfilter(p, den, d) for p in nums], 1), "impulse response", 1e-8)
    return True


@sub(
    PID,
    gen.fd(seed=gen.seeds(), fs=st.sampled_from(gen.FS), up=gen.floats(0.0002, 0.02, 4), down=gen.floats(0.0002, 0.02, 4),
           acc=gen.floats(0.3, 0.99, 2), n=st.integers(1, 80), ch=st.integers(1, 3)),
    quick=80,
)
def averaging(c):
    """Exponential average: different coefficients for rising and falling
    input, the asked part of a step after the asked time, per channel."""
    fs = c["fs"]
    mk = lambda: FB.ExponentialAverageFilter(c["up"], c["down"], fs, c["acc"])
    q = mk()
    x = noise(c["seed"], c["n"], c["ch"])
    q.set_n_channels(c["ch"])
    al = [1 - (1 - c["acc"]) ** (1 / (t * fs)) for t in (c["up"], c["down"])]
    for _ in range(2):
        s = np.zeros(c["ch"])
        for i in range(c["n"]):
            for k in range(c["ch"]):
                a = al[0] if x[i, k] > s[k] else al[1]
                s[k] = a * x[i, k] + (1 - a) * s[k]
                close(q.process_sample(float(x[i, k]), k), s[k], "value", 1e-9, 1e-12)
        q.reset_state()
    q = mk()
    N = int(round(c["up"] * fs))
    if N >= 20:
        y = [float(q.process_sample(1.0, 0)) for _ in range(N)]
        close(y[-1], c["acc"], "step response after the rise time", 0, 0.05)
    return True


# ------------------------------------------------------------------ fitting
@sub(
    PID,
    gen.fd(seed=gen.seeds(), fs=st.sampled_from(gen.FS), nr=st.integers(0, 2), nc=st.integers(0, 3), nfir=st.integers(0, 4),
           delay=st.sampled_from([0, 0, 2, 6]), off=st.sampled_from([0, 0, 2, 3]), jitter=gen.floats(-0.4, 0.4, 1), kautz=st.booleans(), odd=st.booleans()),
    quick=100,
)
def fitted(c):
    """Systems inside the space of the basis are found again."""
    r = np.random.default_rng(c["seed"])
    nr, nc = c["nr"], c["nc"]
    if nr + nc == 0:
        nr = 1
    real = r.choice([-0.8, -0.5, 0.3, 0.6, 0.85], nr, replace=False)
    com = r.uniform(0.3, 0.85, nc) * np.exp(1j * (np.arange(nc) + r.uniform(0.2, 0.8, nc)) * 0.95)
    poles = np.r_[real + 0j, com]
    N = 501 if c["odd"] else 500
    d = np.r_[1.0, np.zeros(N - 1)]
    h = np.zeros(N)
    for p in real:
        h = h + r.uniform(-1, 1) * sps.lfilter([1], [1, -p], d)
    for p in com:
        h = h + sps.lfilter(r.uniform(-1, 1, 2), [1, -2 * p.real, abs(p) ** 2], d)
    h0 = h.copy()
    if not c["kautz"]:
        h = np.r_[np.zeros(c["delay"]), h][:N]
        st_ = max(1, c["off"])
        for i in range(c["nfir"]):
            h[i * st_] += r.uniform(-1, 1)
    g = 0.9 / np.max(np.abs(h))
    h, h0 = h * g, h0 * g
    w = quiet()
    try:
        ir = dsp.ImpulseResponse(None, h0 if c["kautz"] else h, c["fs"], constrain_amplitude=False)
        if c["kautz"]:
            q = FB.KautzFilter(poles, c["fs"] + 10)
            q.fit_coefficients_to_ir(ir)
            check(q.sampling_rate_hz == c["fs"], "sampling rate of the fitted response")
            close(q.get_ir(N).time_data[:, 0], h0, "Kautz", 1e-6)
            # a second fit is no different
            q.fit_coefficients_to_ir(ir)
            close(q.get_ir(N).time_data[:, 0], h0, "Kautz, second fit", 1e-6)
            q2 = FB.KautzFilter.from_ir(ir, nr + 2 * nc, 4)
            check(np.all(np.abs(q2.poles_complex) < 1) and np.all(np.abs(q2.poles_real) < 1), "poles inside the unit circle")
            close(q2.get_ir(N).time_data[:, 0], h0, "Kautz poles found", 1e-3)
        else:
            q = FB.ParallelFilter(poles, c["nfir"], c["fs"])
            # the distance of the taps is rounded to whole samples
            q.set_parameters(c["delay"], max(c["off"] + c["jitter"], 0.0) * 1000.0 / c["fs"])
            # whatever the spectrum settings of the response
            r2 = np.random.default_rng(c["seed"] + 1)
            if r2.integers(2):
                ir.set_spectrum_parameters(
                    method=list(dsp.SpectrumMethod)[r2.integers(2)],
                    smoothing=int(r2.choice([0, 3])),
                    window_length_samples=128,
                    scaling=list(dsp.SpectrumScaling)[r2.integers(len(dsp.SpectrumScaling))],
                )
            before = ir._spectrum_parameters.copy()
            q.fit_to_ir(ir)
            check(ir._spectrum_parameters == before, "settings of the response kept")
            y = q.get_ir(N).time_data[:, 0]
            close(y, h, "parallel filter", 1e-5)
    finally:
        w.__exit__(None, None, None)
    return "kautz" if c["kautz"] else "parallel"


@sub(
    PID,
    gen.fd(seed=gen.seeds(), fs=st.sampled_from(gen.FS), order=st.integers(1, 7), n=st.integers(60, 250), decay=gen.floats(3, 40, 1)),
    quick=40,
)
def kautz_iterations(c):
    """More iterations never lead to worse poles."""
    r = np.random.default_rng(c["seed"])
    h = r.normal(size=c["n"]) * np.exp(-np.arange(c["n"]) / c["decay"])
    h *= 0.9 / np.max(np.abs(h))
    ir = dsp.ImpulseResponse(None, h, c["fs"], constrain_amplitude=False)
    last = np.inf
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k in (1, 2, 3, 4, 6, 9):
            y = FB.KautzFilter.from_ir(ir, c["order"], k).get_ir(c["n"]).time_data[:, 0]
            e = np.sum((y - h) ** 2) / np.sum(h**2)
            check(e <= last + 1e-6, f"error {e} with {k} iterations, {last} with fewer")
            check(e <= 1 + 1e-9, f"error {e} larger than without any filter")
            last = e
    return True


@sub(
    PID,
    gen.fd(seed=gen.seeds(), fs=st.sampled_from(gen.FS), nc=st.integers(1, 3), nfir=st.integers(0, 3), taps=st.integers(0, 4), fit=st.booleans(), again=st.booleans(),
           n=st.integers(4, 50), ch=st.integers(1, 2)),
    quick=60,
)
def parallel_coefficients(c):
    """Coefficients given to a parallel filter are those it filters with,
    whether or not it was fitted before."""
    r = np.random.default_rng(c["seed"])
    nc, fs = c["nc"], c["fs"]
    poles = r.uniform(0.3, 0.85, nc) * np.exp(1j * (np.arange(nc) + r.uniform(0.2, 0.8, nc)) * 0.95)
    q = FB.ParallelFilter(poles, c["nfir"], fs)
    w = quiet()
    try:
        if c["fit"]:
            h = r.standard_normal(64) * np.exp(-np.arange(64) / 8)
            q.fit_to_ir(dsp.ImpulseResponse(None, h / 4, fs))
        k = r.uniform(-1, 1, (nc, 2))
        fir = r.uniform(-1, 1, c["taps"]) if c["taps"] else None
        if nc > 1:
            # sections are equal for all pole pairs, so the assignment of
            # coefficients to pairs plays no role
            k = np.repeat(k[:1], nc, axis=0)
        if c["again"]:
            q.set_coefficients(2 * k, r.uniform(-1, 1, 3))
            [q.process_sample(0.5, 0) for _ in range(5)]
        q.set_coefficients(k.copy(), None if fir is None else fir.copy())
        x = noise(c["seed"], c["n"], c["ch"])
        want = np.zeros(x.shape)
        for p in poles:
            want += sps.lfilter(k[0], [1, -2 * p.real, abs(p) ** 2], x, axis=0)
        if fir is not None:
            want += sps.lfilter(fir, [1], x, axis=0)
        if c["n"] > c["ch"]:
            close(q.filter_signal(sigof(x, fs)).time_data, want, "vector", 1e-8)
        q.set_n_channels(c["ch"])
        got = np.array([[q.process_sample(float(v), i) for i, v in enumerate(row)] for row in x])
        close(got, want, "sample by sample", 1e-8)
        q.reset_state()
        got = np.array([[q.process_sample(float(v), i) for i, v in enumerate(row)] for row in x])
        close(got, want, "sample by sample after a reset", 1e-8)
    finally:
        w.__exit__(None, None, None)
    return "fitted" if c["fit"] else "new"
