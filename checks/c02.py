"""C02: spectral results always belong to the present data and settings.

Histories of queries, data and setting changes, plots and copies run on an
object with caching (also switched on and off on the way); each query is
compared with the query on a fresh, cache-less object which is given the same
samples and the settings recorded by the check. Equal computations are
compared at 1e-10 of the maximum."""

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import dsptoolbox as dsp
from vt import gen
from vt.core import check, close, fail, same, sub

PID = "C02"
SC = dsp.SpectrumScaling
METHODS = [dsp.SpectrumMethod.WelchPeriodogram, dsp.SpectrumMethod.FFT]
SCALINGS = list(SC)
WINDOWS = [dsp.Window.Hann, dsp.Window.Boxcar, dsp.Window.Blackman]


def window_of(i):
    """Windows with a parameter are built anew, as a user does."""
    if i < 3:
        return WINDOWS[i]
    w, v = [(dsp.Window.Kaiser, 4.0), (dsp.Window.Kaiser, 11.0), (dsp.Window.Chebwin, 60.0)][i - 3]
    return w.with_extra_parameter(v)


def spec_params(p):
    return dict(
        method=METHODS[p["method"]],
        smoothing=p["smoothing"],
        pad_to_fast_length=p["pad"],
        window_length_samples=2 ** p["wl"],
        window_type=window_of(p["win"]),
        overlap_percent=p["ov"],
        detrend=p["det"],
        average=["mean", "median"][p["avg"]],
        scaling=SCALINGS[p["scal"]],
    )


def gram_params(p):
    return dict(
        window_length_samples=2 ** p["wl"],
        window_type=window_of(p["win"]),
        overlap_percent=p["ov"],
        fft_length_samples=None,
        detrend=p["det"],
        padding=p["pad"],
        scaling=SCALINGS[p["scal"]],
    )


SP = gen.fd(
    method=st.integers(0, 1),
    smoothing=st.sampled_from([0, 0, 3, 6]),
    pad=st.booleans(),
    wl=st.sampled_from([5, 6, 7]),
    win=st.sampled_from([0, 1, 2, 3, 3, 4, 4, 5]),
    ov=st.sampled_from([0, 50, 75]),
    det=st.booleans(),
    avg=st.integers(0, 1),
    scal=st.integers(0, len(SCALINGS) - 1),
)

OPS = st.one_of(
    gen.fd(op=st.just("query"), what=st.sampled_from(["sp", "sp", "csm", "gram"]),
           force=st.sampled_from([False, False, False, True]), spoil=st.booleans()),
    gen.fd(op=st.just("query"), what=st.sampled_from(["sp", "csm", "gram"]),
           force=st.just(False), spoil=st.booleans()),
    gen.fd(op=st.just("data"), seed=gen.seeds(), n=st.integers(140, 300), ch=st.integers(1, 3)),
    gen.fd(op=st.just("add"), seed=gen.seeds()),
    gen.fd(op=st.just("remove"), i=st.integers(-1, 3)),
    gen.fd(op=st.just("swap"), seed=gen.seeds()),
    gen.fd(op=st.just("fs"), fs=st.sampled_from(gen.FS)),
    gen.fd(op=st.just("constrain"), v=st.booleans()),
    gen.fd(op=st.just("params"), p=SP),
    gen.fd(op=st.just("one"), p=SP, key=st.integers(0, 8)),
    gen.fd(op=st.just("one"), p=SP, key=st.just(8)),
    gen.fd(op=st.just("gram_params"), p=SP),
    gen.fd(op=st.just("scaling"), v=st.integers(0, len(SCALINGS) - 1)),
    gen.fd(op=st.just("method"), v=st.integers(0, 1)),
    gen.fd(op=st.just("smoothing"), v=st.sampled_from([0, 1, 3, 12])),
    gen.fd(op=st.just("window"), seed=gen.seeds(), v=st.booleans()),
    gen.fd(op=st.just("cache"), v=st.booleans()),
    gen.fd(op=st.just("plot"), what=st.sampled_from(
        ["magnitude", "phase", "group_delay", "bode", "csm", "spectrogram", "time", "spl"]
    ), sm=st.sampled_from([0, 3]), rng=st.booleans()),
    gen.fd(op=st.just("copy"), go=st.booleans()),
    gen.fd(op=st.just("get"), seed=gen.seeds(), go=st.booleans()),
)


class M:
    """What was set, recorded outside the library."""

    def __init__(self, x, fs, ir):
        self.x, self.fs, self.ir = x, fs, ir
        self.window, self.constrain = None, False
        self.sp = dict(
            method=METHODS[1] if ir else METHODS[0],
            smoothing=0, pad_to_fast_length=True, window_length_samples=1024,
            window_type=WINDOWS[0], overlap_percent=50, detrend=True,
            average="mean", scaling=SC.FFTBackward,
        )
        self.gp = dict(
            window_length_samples=1024, window_type=WINDOWS[0], overlap_percent=50.0,
            fft_length_samples=None, detrend=False, padding=True, scaling=SC.FFTBackward,
        )

    def fresh(self):
        cls = dsp.ImpulseResponse if self.ir else dsp.Signal
        s = cls(None, self.x.copy(), self.fs, constrain_amplitude=self.constrain)
        s.set_spectrum_parameters(**self.sp)
        s.set_spectrogram_parameters(**self.gp)
        if self.window is not None:
            s.set_window(self.window.copy())
        return s

    def clone(self):
        m = M(self.x.copy(), self.fs, self.ir)
        m.window, m.constrain = self.window, self.constrain
        m.sp, m.gp = dict(self.sp), dict(self.gp)
        return m

    def limit(self):
        if self.constrain and np.max(np.abs(self.x)) > 1:
            self.x = self.x / np.max(np.abs(self.x))


def query(s, what, force=False):
    if what == "sp":
        return s.get_spectrum(force)
    if what == "csm":
        return s.get_csm(force)
    return s.get_spectrogram(force)


def compare(s, m, what, label, force=False, spoil=False):
    got = query(s, what, force)
    want = query(m.fresh(), what)
    for g, w, nm in zip(got, want, ("axis", "values", "values")):
        close(g, w, f"{label}: {what} {nm}", 1e-10, 1e-300, nan_ok=True)
    if spoil:
        for g in got:
            g[...] = -1.0


def check_settings(s, m, label):
    check(s.spectrum_method == m.sp["method"], f"{label}: spectrum method")
    check(s.spectrum_scaling == m.sp["scaling"], f"{label}: spectrum scaling")
    check(s.spectrum_smoothing == m.sp["smoothing"], f"{label}: smoothing")
    same(s.time_data, m.x, f"{label}: samples")
    check(
        (m.window is not None) == hasattr(s, "window"), f"{label}: presence of a window"
    )


@sub(
    PID,
    gen.fd(
        s=gen.sig(140, 300, 3, kinds=["noise", "sines", "decay"], fs=[8000, 48000],
                  amp=st.sampled_from([0.3, 2.0])),
        ir=st.booleans(),
        cache=st.sampled_from([True, True, False]),
        p=SP,
        g=SP,
        ops=st.lists(OPS, min_size=2, max_size=10),
    ),
    quick=400,
    cap=40,
)
def histories(c):
    """Queries after every history equal those on a fresh object."""
    x = gen.data(c["s"])
    m = M(x, c["s"]["fs"], c["ir"])
    cls = dsp.ImpulseResponse if c["ir"] else dsp.Signal
    s = cls(None, x.copy(), m.fs, constrain_amplitude=False, activate_cache=c["cache"])
    m.sp, m.gp = spec_params(c["p"]), gram_params(c["g"])
    s.set_spectrum_parameters(**m.sp)
    s.set_spectrogram_parameters(**m.gp)
    queries = 0
    try:
        for k, o in enumerate(c["ops"]):
            op, label = o["op"], f"step {k} {o['op']}"
            n, ch = m.x.shape
            if op == "query":
                if o["what"] == "csm" and ch == 1:
                    continue
                compare(s, m, o["what"], label, o["force"], o["spoil"])
                queries += 1
            elif op == "data":
                m.x = np.random.default_rng(o["seed"]).standard_normal((o["n"], o["ch"]))
                m.window = None
                s.time_data = m.x.copy()
                m.limit()
            elif op == "add":
                if ch > 3:
                    continue
                new = np.random.default_rng(o["seed"]).standard_normal((n, 1))
                s.add_channel(None, new, m.fs)
                m.x = np.concatenate([m.x, new], axis=1)
                m.window = None
                m.limit()
            elif op == "remove":
                if ch == 1 or o["i"] >= ch:
                    continue
                s.remove_channel(o["i"])
                m.x = np.delete(m.x, o["i"] if o["i"] >= 0 else ch - 1, axis=1)
                m.window = None
            elif op == "swap":
                p = np.random.default_rng(o["seed"]).permutation(ch)
                s.swap_channels(p)
                m.x = m.x[:, p]
                m.window = None
            elif op == "fs":
                s.sampling_rate_hz = o["fs"]
                m.fs = o["fs"]
            elif op == "constrain":
                s.constrain_amplitude = o["v"]
                m.constrain = o["v"]
                if o["v"]:
                    m.limit()
                    m.window = None
                m.x = s.time_data.copy()
            elif op == "params":
                m.sp = spec_params(o["p"])
                s.set_spectrum_parameters(**m.sp)
                m.sp = dict(m.sp)
            elif op == "one":
                new = spec_params(o["p"])
                key = sorted(new)[o["key"]]
                m.sp = m.sp | {key: new[key]}
                s.set_spectrum_parameters(**m.sp)
                m.sp = dict(m.sp)
            elif op == "gram_params":
                m.gp = gram_params(o["p"])
                s.set_spectrogram_parameters(**m.gp)
            elif op == "scaling":
                s.spectrum_scaling = SCALINGS[o["v"]]
                m.sp["scaling"] = SCALINGS[o["v"]]
            elif op == "method":
                s.spectrum_method = METHODS[o["v"]]
                m.sp["method"] = METHODS[o["v"]]
            elif op == "smoothing":
                s.spectrum_smoothing = o["v"]
                m.sp["smoothing"] = o["v"]
            elif op == "window":
                if not m.ir:
                    continue
                if o["v"]:
                    w = np.random.default_rng(o["seed"]).uniform(0.2, 1, (n, ch))
                    s.set_window(w.copy())
                    m.window = w
                else:
                    s.clear_time_window()
                    m.window = None
            elif op == "cache":
                s.activate_cache = o["v"]
            elif op == "plot":
                w = o["what"]
                rng = None if o["rng"] else [100.0, 3000.0]
                if w == "magnitude":
                    s.plot_magnitude(rng, smoothing=o["sm"])
                elif w == "phase":
                    if m.sp["method"] != METHODS[1] or not (
                        m.sp["scaling"].is_amplitude_scaling()
                    ):
                        continue
                    s.plot_phase(rng, smoothing=o["sm"])
                elif w == "group_delay":
                    s.plot_group_delay(rng, smoothing=o["sm"])
                elif w == "bode":
                    if not m.ir or m.sp["method"] != METHODS[1] or not (
                        m.sp["scaling"].is_amplitude_scaling()
                    ):
                        continue
                    s.plot_bode(smoothing=o["sm"], show_group_delay=o["rng"])
                elif w == "csm":
                    if ch == 1:
                        continue
                    s.plot_csm()
                elif w == "spectrogram":
                    s.plot_spectrogram()
                elif w == "time":
                    s.plot_time()
                else:
                    s.plot_spl()
                plt.close("all")
                label += " " + w
            elif op == "copy":
                r = s.copy()
                check_settings(r, m, label)
                # changing one of them does not reach the other
                other, s = (s, r) if o["go"] else (r, s)
                other.spectrum_scaling = SC.PowerSpectrum
                other.set_spectrogram_parameters(window_length_samples=64)
                other.time_data[...] = 0.1
                other.spectrum_smoothing = 5
            elif op == "get":
                idx = np.random.default_rng(o["seed"]).integers(0, ch, 2).tolist()
                r = s.get_channels(idx)
                mm = m.clone()
                mm.x, mm.window = m.x[:, idx], None
                if mm.ir:
                    mm.sp["method"] = METHODS[1]
                check_settings(r, mm, label)
                compare(r, mm, "sp", label)
                compare(r, mm, "gram", label)
                if o["go"]:
                    s, m = r, mm
            else:
                fail(op)
            check_settings(s, m, label)
    finally:
        plt.close("all")
    # the present answer, twice
    for _ in range(2):
        compare(s, m, "sp", "end")
        compare(s, m, "gram", "end")
        if m.x.shape[1] > 1:
            compare(s, m, "csm", "end")
    return f"{'cache' if c['cache'] else 'nocache'}-{min(queries, 4)}q"


@sub(
    PID,
    gen.fd(
        s=gen.sig(140, 260, 3, min_ch=2, kinds=["noise", "sines"], fs=[8000]),
        ir=st.booleans(),
        q1=st.sampled_from(["sp", "csm", "gram"]),
        p=SP,
        p2=SP,
        keys=st.lists(st.sampled_from(
            ["method", "smoothing", "pad", "wl", "win", "ov", "det", "avg", "scal"]
        ), min_size=1, max_size=2),
    ),
    quick=250,
    cap=20,
)
def parameter_changes(c):
    """query - change single settings - query, with the cache on."""
    x = gen.data(c["s"])
    m = M(x, c["s"]["fs"], c["ir"])
    s = (dsp.ImpulseResponse if c["ir"] else dsp.Signal)(
        None, x.copy(), m.fs, constrain_amplitude=False, activate_cache=True
    )
    m.sp, m.gp = spec_params(c["p"]), gram_params(c["p"])
    s.set_spectrum_parameters(**m.sp)
    s.set_spectrogram_parameters(**m.gp)
    compare(s, m, c["q1"], "first")
    p = dict(c["p"])
    for k in c["keys"]:
        p[k] = c["p2"][k]
    m.sp, m.gp = spec_params(p), gram_params(p)
    if c["q1"] == "gram":
        s.set_spectrogram_parameters(**m.gp)
    s.set_spectrum_parameters(**m.sp)
    s.set_spectrogram_parameters(**m.gp)
    compare(s, m, c["q1"], f"after changing {c['keys']}")
    compare(s, m, c["q1"], f"again after changing {c['keys']}", spoil=True)
    compare(s, m, c["q1"], "after editing the result")
    return c["q1"] if p != c["p"] else None


WARM = [dict(op="query", what=w, force=False, spoil=False) for w in ("sp", "csm", "gram")]


@sub(
    PID,
    gen.fd(
        s=gen.sig(140, 260, 3, min_ch=2, kinds=["noise", "sines"], fs=[8000], amp=st.sampled_from([0.3, 2.0])),
        ir=st.booleans(),
        p=SP,
        g=SP,
        window=st.booleans(),
        ops=st.lists(OPS, min_size=1, max_size=2),
        route=st.integers(0, 1),
    ),
    quick=600,
    cap=10,
)
def changes_after_queries(c):
    """All results are stored, then one or two changes, then all are asked
    again; at last the method of the spectrum is exchanged."""
    pre = [dict(op="window", seed=c["s"]["seed"], v=True)] if c["window"] and c["ir"] else []
    ops = [o for o in c["ops"] if not (o["op"] == "remove" and c["s"]["ch"] == 2)]
    ch = [o["op"] for o in ops]
    if not ops or ("get" in ch and len(ops) > 1):
        return None
    last = WARM + [dict(op="method", v=1 - c["p"]["method"])] if c["route"] else []
    if any(o["op"] in ("data", "get", "remove") for o in ops):
        last = []
    histories(dict(s=c["s"], ir=c["ir"], cache=True, p=c["p"], g=c["g"], ops=pre + WARM + ops + last))
    return "-".join(sorted(set(ch)))
