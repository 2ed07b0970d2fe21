"""C13: a filter bank is the collection of its filters in every mode.

Oracles: scipy.signal.lfilter with the polynomials the filters were made of,
one filter after the other or side by side; a python list for the collection."""

import warnings

import numpy as np
import scipy.signal as sps
from hypothesis import strategies as st

import dsptoolbox as dsp
from checks.c10 import build
from vt import gen
from vt.core import check, close, raises, same, sub
from vt.gen import full

PID = "C13"
M = dsp.FilterBankMode
T = dsp.FilterCoefficientsType
REAL = ["ba", "sos", "zpk", "fir", "first"]


def filters(c):
    out = []
    for i, f in enumerate(c["forms"]):
        out.append(
            build(dict(seed=c["seed"] + 7 * i, k=1 + (c["seed"] + i) % 2, form=f, odd=(c["seed"] + i) % 3 == 0,
                       taps=c.get("taps", 6), lead=0, fs=c["fs"], rmax=c.get("rmax", 0.9)))
        )
    return out


def signal(c, n=None):
    """Signal / impulse response with channels, maybe complex."""
    r = np.random.default_rng(c["seed"] + 99)
    x = r.standard_normal((n or c["n"], c["ch"])) * c.get("amp", 1.0)
    if c["cplx"]:
        x = x + 1j * r.standard_normal(x.shape)
    cls = dsp.ImpulseResponse if c["ir"] else dsp.Signal
    if c["cplx"]:
        s = cls(None, x.real.copy(), c["fs"], constrain_amplitude=False)
        s.time_data_imaginary = x.imag.copy()
    else:
        s = cls(None, x, c["fs"], constrain_amplitude=False)
    return s, x


def lf(b, a, x):
    return sps.lfilter(np.asarray(b, dtype=np.result_type(b, x)), a, x, axis=0)


BANK = dict(
    seed=gen.seeds(),
    forms=st.lists(st.sampled_from(REAL), min_size=1, max_size=4),
    fs=st.sampled_from(gen.FS),
    taps=st.integers(1, 30),
)


@sub(
    PID,
    gen.fd(**BANK, n=st.integers(5, 120), ch=st.integers(1, 3), cplx=st.booleans(), ir=st.booleans(), cfir=st.booleans(),
           mode=st.sampled_from(["Parallel", "Sequential", "Summed"]), zero=st.booleans(), amp=st.sampled_from([1.0, 0.01, 20.0])),
    quick=300,
    thorough=8000,
)
def modes(c):
    """Signals through the bank in each mode."""
    forms = ["cfir"] * len(c["forms"]) if c["cfir"] else c["forms"]
    if c["n"] <= c["ch"]:
        return None
    zero = c["zero"] and not c["cfir"] and not c["cplx"]
    if zero:
        c = c | dict(n=c["n"] + 150)
    fl = filters(c | dict(forms=forms))
    s, x = signal(c)
    before = full(s).copy()
    bank = dsp.FilterBank([f for f, _, _ in fl])
    mode = M[c["mode"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = bank.filter_signal(s, mode, zero_phase=zero)
        if zero:
            each = [lambda y, f=f: full(f.filter_signal(s.copy_with_new_time_data(y), zero_phase=True)) for f, _, _ in fl]
        else:
            each = [lambda y, b=b, a=a: lf(b, a, y) for _, b, a in fl]
        if mode is M.Parallel:
            want = [g(x) for g in each]
        elif mode is M.Sequential:
            y = x
            for g in each:
                y = g(y)
            want = [y]
        else:
            want = [sum(g(x) for g in each)]
    got = out.bands if mode is M.Parallel else [out]
    check(isinstance(out, dsp.MultiBandSignal) == (mode is M.Parallel), f"type {type(out)}")
    check(len(got) == len(want), f"{len(got)} bands for {len(want)} filters")
    for i, (g, w) in enumerate(zip(got, want)):
        check(type(g) is type(s), f"band type {type(g)}")
        check(g.sampling_rate_hz == c["fs"], "sampling rate")
        check(g.is_complex_signal == np.iscomplexobj(w), f"band {i} complex: {g.is_complex_signal}")
        close(full(g), w, f"{c['mode']} output {i}", 1e-7, scale=max(np.max(np.abs(w)), 1e-3 * c["amp"]))
    same(full(s), before, "input")
    # each output belongs to itself
    keep = [full(g).copy() for g in got]
    s.time_data = s.time_data * 0 + 0.5
    for g, w in zip(got, keep):
        same(full(g), w, "output after editing the input")
    raises(lambda: bank.filter_signal(gen_sig(c["fs"] * 2), mode), "signal with another sampling rate")
    return f"{c['mode']}{'-zero' if zero else ''}{'-cplx' if c['cplx'] else ''}"


def gen_sig(fs):
    return dsp.Signal(None, np.ones((20, 1)) * 0.1, fs)


@sub(
    PID,
    gen.fd(**BANK, n=st.integers(5, 80), ch=st.integers(1, 3), cplx=st.booleans(), ir=st.booleans(), multirate=st.booleans()),
    quick=150,
    thorough=4000,
)
def multiband(c):
    """Band i goes through filter i, also for several sampling rates."""
    if c["n"] <= c["ch"]:
        return None
    rates = [8000, 16000, 44100, 48000] if c["multirate"] else [c["fs"]] * 4
    fl, bands, xs = [], [], []
    for i, f in enumerate(c["forms"]):
        fl += filters(c | dict(forms=[f], seed=c["seed"] + i, fs=rates[i]))
        s, x = signal(c | dict(fs=rates[i], seed=c["seed"] + 31 * i), None if not c["multirate"] else c["n"] + 3 * i)
        bands.append(s)
        xs.append(x)
    bank = dsp.FilterBank([f for f, _, _ in fl], same_sampling_rate=not c["multirate"])
    if c["multirate"]:
        check(list(bank.sampling_rate_hz) == rates[: len(fl)], f"rates {bank.sampling_rate_hz}")
    mb = dsp.MultiBandSignal(bands, same_sampling_rate=not c["multirate"])
    out = bank.filter_multiband_signal(mb)
    check(out.number_of_bands == len(fl), "number of bands")
    for i, (b, x, (_, bb, aa)) in enumerate(zip(out.bands, xs, fl)):
        w = lf(bb, aa, x)
        close(full(b), w, f"band {i}", 1e-7, scale=max(np.max(np.abs(w)), 1e-3))
        check(b.sampling_rate_hz == rates[i], "rate")
        check(type(b) is type(bands[i]), "type")
        same(full(mb.bands[i]), x, "input band")
    if c["multirate"] and len(fl) > 1:
        raises(lambda: bank.filter_signal(bands[0], M.Summed), "multirate in summed mode")
        ir = bank.get_ir(64, M.Parallel)
        for i, (b, (_, bb, aa)) in enumerate(zip(ir.bands, fl)):
            w = lf(bb, aa, np.r_[1.0, np.zeros(63)])
            close(b.time_data[:, 0], w, f"multirate response {i}", 1e-7, scale=max(1e-3, np.max(np.abs(w))))
            check(b.sampling_rate_hz == rates[i], "rate of the response")
        ir = bank.get_ir(128, M.Parallel, zero_phase=True)
        for i, (b, (f, bb, aa)) in enumerate(zip(ir.bands, fl)):
            d = dsp.Signal(None, np.r_[1.0, np.zeros(127)], rates[i])
            same(b.time_data, f.filter_signal(d, zero_phase=True).time_data, f"multirate zero-phase response {i}")
        H = bank.get_transfer_function(np.linspace(10, 3900, 9), M.Parallel)
        for i, (_, bb, aa) in enumerate(fl):
            close(H[:, i], gen.freqz(bb, aa, np.linspace(10, 3900, 9), rates[i]), "multirate transfer function", 1e-7)
    return "multirate" if c["multirate"] else "single"


@sub(
    PID,
    gen.fd(**BANK, n=st.one_of(st.integers(1, 6), st.integers(3, 200)), mode=st.sampled_from(["Parallel", "Sequential", "Summed"]), cfir=st.booleans(),
           nf=st.integers(1, 12)),
    quick=200,
    thorough=6000,
)
def responses(c):
    """Impulse response and transfer function of the bank."""
    forms = ["cfir"] * len(c["forms"]) if c["cfir"] else c["forms"]
    fl = filters(c | dict(forms=forms))
    bank = dsp.FilterBank([f for f, _, _ in fl])
    mode, n = M[c["mode"]], c["n"]
    order = max(f.order for f, _, _ in fl)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ir = bank.get_ir(n, mode)
    L = n if order <= n else order + 100
    d = np.r_[1.0, np.zeros(L - 1)]
    each = [lf(b, a, d) for _, b, a in fl]
    if mode is M.Parallel:
        want = each
    elif mode is M.Sequential:
        y = d
        for _, b, a in fl:
            y = lf(b, a, y)
        want = [y]
    else:
        want = [sum(each)]
    got = ir.bands if mode is M.Parallel else [ir]
    check(len(got) == len(want), "number of responses")
    for g, w in zip(got, want):
        close(full(g)[:, 0], w, f"response in mode {c['mode']}", 1e-7, scale=max(np.max(np.abs(w)), 1e-3))
        check(g.sampling_rate_hz == c["fs"], "rate")
    # zero-phase responses: as obtained from the filters one by one
    nz = max(n, order + 1, 130)
    irz = bank.get_ir(nz, mode, zero_phase=True)
    d = dsp.Signal(None, np.r_[1.0, np.zeros(nz - 1)], c["fs"], constrain_amplitude=False)
    if mode is M.Sequential:
        y = d
        for f, _, _ in fl:
            y = f.filter_signal(y, zero_phase=True)
        want = [full(y)]
    else:
        want = [full(f.filter_signal(d, zero_phase=True)) for f, _, _ in fl]
        if mode is M.Summed:
            want = [sum(want)]
    for g, w in zip(irz.bands if mode is M.Parallel else [irz], want):
        close(full(g), w, f"zero-phase response in mode {c['mode']}", 1e-9, scale=max(np.max(np.abs(w)), 1e-3))
    f = np.sort(np.random.default_rng(c["seed"]).uniform(0, c["fs"] / 2, c["nf"]))
    hs = np.stack([gen.freqz(b, a, f, c["fs"]) for _, b, a in fl], 1)
    H = bank.get_transfer_function(f, mode)
    w = dict(Parallel=hs, Sequential=np.prod(hs, 1), Summed=np.sum(hs, 1))[c["mode"]]
    close(H, w, f"transfer function in mode {c['mode']}", 1e-7, 1e-9)
    return c["mode"] + ("-adapted" if L != n else "")


# -------------------------------------------------------------- collection
OPS = st.one_of(
    gen.fd(op=st.just("add"), i=st.integers(-4, 6), v=st.integers(0, 40)),
    gen.fd(op=st.just("remove"), i=st.integers(-1, 6), ret=st.booleans()),
    gen.fd(op=st.just("swap"), v=st.integers(0, 1000)),
    gen.fd(op=st.just("badswap"), v=st.integers(0, 1000)),
    gen.fd(op=st.just("append"), k=st.integers(1, 3), v=st.integers(0, 40)),
    gen.fd(op=st.just("copy")),
    gen.fd(op=st.just("badrate")),
    gen.fd(op=st.just("set"), k=st.integers(1, 3), v=st.integers(0, 40)),
    gen.fd(op=st.just("filter"), mode=st.sampled_from(["Parallel", "Sequential", "Summed"])),
)


def coded(v, fs):
    """A filter that is recognised by its coefficients."""
    if v % 2:
        return dsp.Filter.from_ba([1.0, 0.01 * v], [1.0, 0.3 + 0.01 * v], fs)
    return dsp.Filter.from_ba([0.5, 0.01 * v, 0.1], [1.0], fs)


def code(f):
    b, a = f.get_coefficients(T.Ba)
    return np.r_[b, -1.0, a]


@sub(
    PID,
    gen.fd(start=st.lists(st.integers(0, 40), max_size=4), ops=st.lists(OPS, min_size=1, max_size=10), fs=st.sampled_from(gen.FS),
           multi=st.booleans()),
    quick=300,
    thorough=8000,
)
def collection(c):
    """Histories of editing the bank against a python list."""
    fs, multi = c["fs"], c["multi"]

    def rate(v):
        return [8000, 11025, 48000][v % 3] if multi else fs

    model = list(c["start"])
    bank = dsp.FilterBank([coded(v, rate(v)) for v in model], same_sampling_rate=not multi)
    others = []
    done = 0
    for o in c["ops"]:
        op = o["op"]
        if op == "add":
            i = o["i"]
            if i > len(model):
                continue
            r = bank.add_filter(coded(o["v"], rate(o["v"])), i)
            check(r is bank, "add_filter returns the bank")
            if i == -1:
                model = model + [o["v"]]
            else:
                model = list(model)
                model.insert(i, o["v"])
        elif op == "remove":
            if not model or o["i"] >= len(model):
                raises(lambda: bank.remove_filter(o["i"] if model else -1), "removing a filter that is not there")
                continue
            v = model[o["i"]]
            r = bank.remove_filter(o["i"], o["ret"])
            if o["ret"]:
                same(code(r), code(coded(v, rate(v))), "removed filter")
            else:
                check(r is bank, "remove_filter returns the bank")
            model = list(model)
            model.pop(o["i"])
        elif op == "swap":
            if not model:
                continue
            p = np.random.default_rng(o["v"]).permutation(len(model))
            p = p if o["v"] % 2 else [int(q) for q in p]
            bank.swap_filters(p)
            model = [model[i] for i in p]
        elif op == "badswap":
            if len(model) < 2:
                continue
            p = list(range(len(model)))
            k = o["v"] % 3
            if k == 0:
                p[0] = p[1]
            elif k == 1:
                p[0] = len(model)
            else:
                p = p[:-1]
            if len(p) > 1 or k == 2:
                raises(lambda: bank.swap_filters(p), f"order {p}")
        elif op == "append":
            if not model:
                continue
            new = [o["v"] + 3 * j for j in range(o["k"])]
            if multi:
                # banks with several rates are only joined when these agree
                if len(model) > 3:
                    continue
                new = list(model)
            other = dsp.FilterBank([coded(v, rate(v)) for v in new], same_sampling_rate=not multi)
            old = bank
            if o["v"] % 3 == 0 and not multi:
                # three at once
                third = dsp.FilterBank([coded(o["v"] + 1, rate(0))])
                bank = dsp.append_filterbanks([bank, other, third])
                others.append((third, [o["v"] + 1]))
            else:
                third = None
                bank = dsp.append_filterbanks([bank, other])
            check(bank is not old and old.number_of_filters == len(model), "joining changes the first bank")
            check(other.number_of_filters == len(new), "joining changes the second bank")
            others.append((old, list(model)))
            others.append((other, new))
            model = model + new + ([] if third is None else [o["v"] + 1])
        elif op == "copy":
            old = bank
            bank = bank.copy()
            others.append((old, list(model)))
        elif op == "badrate":
            if model and not multi:
                raises(lambda: bank.add_filter(coded(1, fs + 1)), "filter with another rate")
                raises(lambda: dsp.FilterBank([coded(1, fs), coded(2, fs + 1)]), "filters with different rates")
                raises(lambda: setattr(bank, "filters", [coded(1, 2 * fs), coded(2, fs)]), "different rates")
                raises(lambda: dsp.append_filterbanks([bank, dsp.FilterBank([coded(1, fs + 1)])]), "bank with another rate")
        elif op == "set":
            model = [o["v"] + 2 * j for j in range(o["k"])]
            new = [coded(v, rate(v)) for v in model]
            bank.filters = new if o["v"] % 2 else tuple(new)
        elif op == "filter":
            if not model or multi:
                continue
            x = np.random.default_rng(len(model)).standard_normal(20)
            y = bank.filter_signal(dsp.Signal(None, x, fs), M[o["mode"]])
            ys, seq = [], x
            for v in model:
                cf = coded(v, fs).get_coefficients(T.Ba)
                ys.append(sps.lfilter(*cf, x))
                seq = sps.lfilter(*cf, seq)
            if o["mode"] == "Parallel":
                close(np.stack([b.time_data[:, 0] for b in y.bands]), np.stack(ys), "parallel", 1e-9)
            else:
                close(y.time_data[:, 0], sum(ys) if o["mode"] == "Summed" else seq, o["mode"], 1e-9)
        done += 1
        for bk, md in [(bank, model)] + others:
            check(bk.number_of_filters == len(md) == len(bk) == len(list(bk)), f"after {op}: {bk.number_of_filters} filters for {len(md)}")
            for f, v in zip(bk, md):
                same(code(f), code(coded(v, rate(v))), f"filter after {op}")
                check(f.sampling_rate_hz == rate(v), "rate of the filter")
            check(bk.metadata["number_of_filters"] == len(md), "number of filters reported")
            if md:
                want = [rate(v) for v in md] if multi else fs
                check(bk.sampling_rate_hz == want, f"after {op}: rates {bk.sampling_rate_hz}, expected {want}")
                check(
                    set(bk.metadata["types_of_filters"]) == {coded(v, fs).metadata["filter_type"] for v in md},
                    f"types {bk.metadata['types_of_filters']}",
                )
    return done > 0


@sub(
    PID,
    gen.fd(seed=gen.seeds(), iir=st.booleans(), kinds=st.lists(st.integers(0, 2), min_size=2, max_size=5), fs=st.sampled_from(gen.FS),
           taps=st.integers(1, 40), bank=st.booleans()),
    quick=100,
    thorough=3000,
)
def merged(c):
    """Merging filters is filtering with one after the other."""
    forms = [["ba", "sos", "zpk"][k] if c["iir"] else "fir" for k in c["kinds"]]
    fl = filters(c | dict(forms=forms, taps=c["taps"], rmax=0.8))
    fs_ = [f for f, _, _ in fl]
    before = [code(f) for f in fs_]
    m = dsp.merge_filters(dsp.FilterBank(list(fs_)) if c["bank"] else fs_)
    check(m.sampling_rate_hz == c["fs"], "rate")
    check(m.is_iir == c["iir"], "kind")
    L = 150
    y = np.r_[1.0, np.zeros(L - 1)]
    for _, b, a in fl:
        y = sps.lfilter(b, a, y)
    got = m.filter_signal(dsp.Signal(None, np.r_[1.0, np.zeros(L - 1)], c["fs"])).time_data[:, 0]
    close(got, y, "merged", 1e-6, scale=max(1e-3, np.max(np.abs(y))))
    for f, b in zip(fs_, before):
        same(code(f), b, "filters given")
    other = build(dict(seed=1, k=1, form="fir" if c["iir"] else "sos", odd=False, taps=4, lead=0, fs=c["fs"]))[0]
    raises(lambda: dsp.merge_filters(fs_ + [other]), "mixed kinds")
    raises(lambda: dsp.merge_filters(fs_[:1]), "one filter")
    wrong = build(dict(seed=1, k=1, form="sos" if c["iir"] else "fir", odd=False, taps=4, lead=0, fs=c["fs"] * 2))[0]
    raises(lambda: dsp.merge_filters(fs_ + [wrong]), "rates")
    return "iir" if c["iir"] else "fir"


@sub(
    PID,
    gen.fd(seed=gen.seeds(), forms=st.lists(st.sampled_from(REAL), min_size=2, max_size=3), fs=st.sampled_from([44100, 48000]),
           mode=st.sampled_from(["Parallel", "Sequential", "Summed"]), what=st.sampled_from(["magnitude", "phase", "group_delay"])),
    quick=9,
    thorough=60,
)
def plots(c):
    """The plotted curves are those of the bank in that mode."""
    import matplotlib.pyplot as plt

    fl = filters(c | dict(taps=6, rmax=0.7))
    bank = dsp.FilterBank([f for f, _, _ in fl])
    L = 512
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fig, ax = getattr(bank, "plot_" + c["what"])(L, M[c["mode"]])
        lines = [(l.get_xdata(), l.get_ydata()) for l in ax.get_lines()]
        plt.close("all")
    fr = lines[0][0]
    fr = np.asarray(fr, float)
    hs = np.stack([gen.freqz(b, a, fr, c["fs"]) for _, b, a in fl], 1)
    h = dict(Parallel=hs, Sequential=np.prod(hs, 1)[:, None], Summed=np.sum(hs, 1)[:, None])[c["mode"]]
    check(len(lines) == h.shape[1], f"{len(lines)} curves for {h.shape[1]}")
    ok = (fr > 20) & (fr < 20000)
    for i, (_, y) in enumerate(lines):
        w = h[:, i]
        good = ok & (np.abs(w) > 1e-3 * np.max(np.abs(w)))
        if c["what"] == "magnitude":
            close(y[good], 20 * np.log10(np.abs(w[good])), "magnitude", 0, 1e-2)
        elif c["what"] == "phase":
            e = np.exp(1j * np.asarray(y)) / np.exp(1j * np.angle(w))
            close(e[good], np.ones(good.sum()), "phase", 0, 1e-3)
        else:
            # numerical derivative: only that it belongs to this curve
            gd = -np.gradient(np.unwrap(np.angle(w)), fr) / (2 * np.pi) * 1e3
            d = np.abs(np.asarray(y) - gd)[good]
            check(np.median(d) < 0.05 * max(np.median(np.abs(gd[good])), 1e-2), f"group delay off by {np.median(d)} ms")
    return c["what"] + c["mode"]
