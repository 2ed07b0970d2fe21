"""C15: a multiband signal is the list of its bands.

Oracle: a python list of (samples, rate) records driven by the same history."""

import warnings

import numpy as np
from hypothesis import strategies as st

import dsptoolbox as dsp
from vt import gen
from vt.core import check, close, raises, same, sub
from vt.gen import full

PID = "C15"


def data(v, n, ch, cplx):
    r = np.random.default_rng(v)
    x = r.uniform(-1, 1, (n, ch)) * [0.9, 0.01, 1.7][v % 3]
    return x + 1j * r.uniform(-1, 1, (n, ch)) if cplx else x


def band(v, n, ch, cplx, fs, ir, con=False):
    cls = dsp.ImpulseResponse if ir else dsp.Signal
    x = data(v, n, ch, cplx)
    if con:
        # amplitude constrained, but below the limit
        x = x / (1.01 * max(1.0, np.max(np.abs(x.real)), np.max(np.abs(x.imag)) if cplx else 0))
    s = cls(None, x.real.copy(), fs, constrain_amplitude=con)
    if cplx:
        s.time_data_imaginary = x.imag.copy()
    return s, x


OPS = st.one_of(
    gen.fd(op=st.just("add"), i=st.integers(-4, 6), v=gen.seeds()),
    gen.fd(op=st.just("remove"), i=st.integers(-1, 6), ret=st.booleans()),
    gen.fd(op=st.just("swap"), v=gen.seeds()),
    gen.fd(op=st.just("bad"), k=st.integers(0, 9), v=gen.seeds()),
    gen.fd(op=st.just("set"), k=st.integers(1, 4), v=gen.seeds()),
    gen.fd(op=st.just("copy")),
    gen.fd(op=st.just("collapse")),
    gen.fd(op=st.just("channel"), ch=st.integers(0, 3)),
    gen.fd(op=st.just("all")),
    gen.fd(op=st.just("join"), k=st.integers(1, 2), v=gen.seeds()),
    gen.fd(op=st.just("edit"), i=st.integers(0, 5), v=gen.seeds()),
)


@sub(
    PID,
    gen.fd(
        start=st.lists(gen.seeds(), max_size=4),
        ops=st.lists(OPS, min_size=1, max_size=10),
        n=st.integers(8, 40),
        ch=st.integers(1, 4),
        cplx=st.booleans(),
        ir=st.booleans(),
        con=st.booleans(),
        fs=st.sampled_from(gen.FS),
        multi=st.booleans(),
    ),
    quick=500,
    thorough=15000,
)
def histories(c):
    n0, ch, cplx, ir, multi = c["n"], c["ch"], c["cplx"], c["ir"], c["multi"]
    con = c["ir"] and c["con"]
    rates = [8000, 16000, 48000, 11025]

    def mk(v):
        fs = rates[v % 4] if multi else c["fs"]
        n = n0 + v % 5 if multi else n0
        s, x = band(v, n, ch, cplx, fs, ir, con)
        return s, (x, fs, type(s))

    pairs = [mk(v) for v in c["start"]]
    model = [p[1] for p in pairs]
    first = [p[0] for p in pairs]
    info = dict(a=1)
    mb = dsp.MultiBandSignal(first if c["n"] % 2 else tuple(first), same_sampling_rate=not multi, info=info)
    others = []
    for o in c["ops"]:
        op = o["op"]
        if op == "add":
            if o["i"] > len(model):
                continue
            s, m = mk(o["v"])
            check(mb.add_band(s, o["i"]) is mb, "add_band returns the signal")
            if o["i"] == -1:
                model = model + [m]
            else:
                model = list(model)
                model.insert(o["i"], m)
        elif op == "remove":
            if not model or o["i"] >= len(model):
                raises(lambda: mb.remove_band(o["i"] if model else -1), "removing a band that is not there")
            elif len(model) > 1:
                r = mb.remove_band(o["i"], o["ret"])
                m = model[o["i"]]
                if o["ret"]:
                    same(full(r), m[0], "removed band")
                else:
                    check(r is mb, "remove_band returns the signal")
                model = list(model)
                model.pop(o["i"])
        elif op == "swap":
            if not model:
                continue
            p = np.random.default_rng(o["v"]).permutation(len(model))
            check(mb.swap_bands(p if o["v"] % 2 else [int(q) for q in p]) is mb, "swap_bands returns the signal")
            model = [model[i] for i in p]
        elif op == "bad":
            if not model:
                continue
            k = o["k"]
            x = data(o["v"], n0, ch, False)
            cls = dsp.Signal
            if k == 0 and not multi:
                raises(lambda: mb.add_band(band(1, n0 + 1, ch, cplx, c["fs"], ir)[0]), "band of another length")
            elif k == 1 and not multi:
                raises(lambda: mb.add_band(band(1, n0, ch, cplx, c["fs"] + 1, ir)[0], 0), "band with another rate")
            elif k == 2:
                raises(lambda: mb.add_band(band(1, n0, ch + 1, cplx, c["fs"], ir)[0], o["v"] % 2 - 1), "band with more channels")
            elif k == 3:
                raises(lambda: mb.add_band(band(1, n0, ch, not cplx, c["fs"], ir)[0], o["v"] % 2 - 1), "real and complex bands")
            elif k == 4:
                raises(lambda: mb.add_band(x), "an array as band")
            elif k == 5:
                w = [band(j, n0, ch + 1, cplx, c["fs"] * 2, ir)[0] for j in range(2)] + [mk(o["v"])[0]]
                raises(lambda: setattr(mb, "bands", w), "replacing with bands that do not fit")
            elif k == 6 and len(model) > 1:
                raises(lambda: mb.swap_bands([0] * len(model)), "repeated index")
            elif k == 7:
                raises(lambda: mb.swap_bands(list(range(1, len(model) + 1))), "index out of range")
            elif k == 8:
                raises(lambda: mb.swap_bands(list(range(len(model) + 1))), "too many indices")
            elif k == 9 and multi:
                raises(lambda: mb.collapse(), "collapsing several rates")
        elif op == "set":
            pairs = [mk(o["v"] + j) for j in range(o["k"])]
            mb.bands = [p[0] for p in pairs]
            model = [p[1] for p in pairs]
        elif op == "copy":
            others.append((mb, list(model)))
            mb = mb.copy()
        elif op == "collapse":
            if not model or multi:
                continue
            s = mb.collapse()
            want = sum(m[0] for m in model)
            if not con:
                close(full(s), want, "collapsed", 1e-12)
            else:
                k = max(1.0, np.max(np.abs(want.real)), np.max(np.abs(want.imag)))
                g = np.vdot(want, full(s)) / np.vdot(want, want)
                close(full(s), want * g, "collapsed", 1e-10, scale=k)
                check(k > 1 or abs(g - 1) < 1e-10, "level")
            check(s.sampling_rate_hz == c["fs"] and type(s) is model[0][2], "collapsed signal")
            s.time_data = np.zeros_like(s.time_data)  # does not reach the bands
        elif op == "channel":
            if not model:
                continue
            k = o["ch"] % ch
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = mb.get_all_bands(k)
            if multi:
                tds, fss = got
                check(len(tds) == len(model) and list(fss) == [m[1] for m in model], "rates of the bands")
                for a, m in zip(tds, model):
                    same(np.asarray(a), m[0][:, k], "samples of one channel")
            else:
                check(got.number_of_channels == len(model) and got.sampling_rate_hz == c["fs"], "bands as channels")
                check(type(got) is model[0][2], "type")
                close(full(got), np.stack([m[0][:, k] for m in model], 1), "channel over all bands", 1e-12)
                got.time_data = np.zeros_like(got.time_data)
        elif op == "all":
            if not model:
                continue
            got = mb.get_all_time_data()
            if multi:
                check(len(got) == len(model), "number of bands")
                for (a, fs), m in zip(got, model):
                    same(a, m[0], "samples of the band")
                    check(fs == m[1], "rate of the band")
            else:
                a, fs = got
                same(a, np.stack([m[0] for m in model], 1), "all samples")
                check(fs == c["fs"], "rate")
                a *= 0
        elif op == "join":
            if not model:
                continue
            pairs = [mk(o["v"] + j) for j in range(o["k"])]
            if multi:
                continue
            s0 = mb
            other = dsp.MultiBandSignal([band(o["v"] + j, n0, ch, cplx, c["fs"], ir)[0] for j in range(len(model))])
            got = dsp.append_signals([mb, other])
            check(got.number_of_channels == 2 * ch and got.number_of_bands == len(model), "appended multiband signals")
            for b, m, q in zip(got.bands, model, other.bands):
                if not ir:
                    close(full(b), np.concatenate([m[0], full(q)], 1), "appended band", 1e-12)
            mb = s0
        elif op == "edit":
            if not model:
                continue
            i = o["i"] % len(model)
            b = mb.bands[i]
            if con:
                continue
            x = data(o["v"], len(model[i][0]), ch, False)
            b.time_data = x.copy()
            model = list(model)
            # (samples are given to the band itself; imaginary part is kept or dropped by C01's rules)
            model[i] = (full(b).copy(), model[i][1], model[i][2])
            same(b.time_data, x, "replaced samples")
            if cplx != b.is_complex_signal:
                return "edited-complex"
        for m, md in [(mb, model)] + others:
            check(m.number_of_bands == len(md) == len(m) == len(list(m)), f"after {op}: {m.number_of_bands} bands for {len(md)}")
            check(m.same_sampling_rate == (not multi) and m.info == info, "settings")
            check(m.metadata["number_of_bands"] == len(md), "metadata")
            if not md:
                check(m.length_samples == 0 and not m.is_complex_signal, "empty")
                continue
            for b, (x, fs, ty) in zip(m, md):
                same(full(b), x, f"band after {op}")
                check(b.sampling_rate_hz == fs and type(b) is ty, "rate and type of the band")
            check(m.number_of_channels == ch == m.metadata["number_of_channels"], f"after {op}: {m.number_of_channels} channels")
            check(m.is_complex_signal == cplx, "complex")
            if multi:
                check(list(m.sampling_rate_hz) == [q[1] for q in md], f"after {op}: rates {m.sampling_rate_hz}")
                check(list(m.length_samples) == [len(q[0]) for q in md], "lengths")
            else:
                check(m.sampling_rate_hz == c["fs"] == m.metadata["sampling_rate_hz"], f"after {op}: rate {m.sampling_rate_hz}")
                check(m.length_samples == n0 == m.metadata["length_samples"], "length")
                check(abs(m.length_seconds - n0 / c["fs"]) < 1e-12, "duration")
            txt = str(m)
            check(txt.count("Signal ") >= len(md) and m.metadata_str == txt, "text")
    return ("multirate" if multi else "single") + ("-cplx" if cplx else "")
