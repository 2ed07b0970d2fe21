"""C29: plots show the data they are asked for.

Oracle: curves, images and points are read back from the matplotlib axes and
compared with values computed directly from the samples, coefficients or
coordinates (numpy sums, polynomials on the unit circle, static curves)."""

import contextlib
import warnings

import numpy as np
import scipy.signal as sps
from hypothesis import strategies as st

import dsptoolbox as dsp
from checks.c10 import build
from vt import gen
from vt.core import check, close, same, sub

PID = "C29"
SM, SC, MN = dsp.SpectrumMethod, dsp.SpectrumScaling, dsp.MagnitudeNormalization
M = dsp.FilterBankMode
RANGES = [[20.0, 20e3], None, [100, 3000], [50, 1000.0]]


@contextlib.contextmanager
def plotting():
    import matplotlib.pyplot as plt

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        plt.close("all")


def lines(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.get_lines()]


def shown(f, full, r, msg):
    """The plotted frequencies are the bins of the range, apart from the bins
    next to its ends."""
    if r is None:
        close(f, full, msg + " frequencies", 1e-9)
        return
    df = full[1] - full[0]
    must = full[(full > r[0] + df) & (full < min(r[1], full[-1]) - df)]
    i = np.searchsorted(full, f)
    i = np.clip(i, 0, len(full) - 1)
    i = np.where(np.abs(full[i - 1] - f) < np.abs(full[i] - f), i - 1, i)
    close(full[i], f, msg + " frequencies are no bins", 1e-9)
    check(np.all(np.diff(f) > 0), msg + " frequencies not increasing")
    check(len(must) == 0 or (f[0] <= must[0] + 1e-6 and f[-1] >= must[-1] - 1e-6), f"{msg}: range {f[[0, -1]] if len(f) else f} for {r}")
    check(np.all((f > r[0] - df - 1e-9) & (f < r[1] + df + 1e-9)), f"{msg}: outside of the range")


def dtft(x, f, fs):
    return np.exp(-2j * np.pi * np.outer(f / fs, np.arange(len(x)))) @ x


def mod2pi(y, want, ok, msg, tol=1e-6):
    e = np.exp(1j * (y - want))
    if np.any(ok):
        close(e[ok], np.ones(ok.sum()), msg, 0, tol)


def three_point_delay(x, f, df, fs, extra=None):
    """Central difference of the phase and where it is unambiguous."""
    p = np.stack([dtft(x, f + k * df, fs) for k in (-1, 0, 1)], 1)
    m = np.abs(p).min(1)
    ph = np.angle(p)
    if extra is not None:
        ph = ph + 2 * np.pi * np.stack([f + k * df for k in (-1, 0, 1)], 1) * extra
    d = np.diff(ph, axis=1)
    d = (d + np.pi) % (2 * np.pi) - np.pi
    ok = (m > 1e-6 * np.max(np.abs(p))) & np.all(np.abs(np.abs(d) - np.pi) > 1e-3, 1)
    return -d.sum(1) / (4 * np.pi * df), ok


LATENCY = st.sampled_from([None, None, "array", "peak", "min_phase"])
SYS = dict(
    seed=gen.seeds(),
    n=st.integers(40, 300),
    ch=st.integers(1, 3),
    fs=st.sampled_from(["n", "2n", 8000, 44100, 48000]),
)


def samples(c, decay=False):
    r = np.random.default_rng(c["seed"])
    x = r.standard_normal((c["n"], c["ch"])) * 0.2
    if decay:
        x = x * np.exp(-np.arange(c["n"]) / c["n"] * 8)[:, None]
        x[0] = 1.0
    fs = dict(n=c["n"]).get(c["fs"], 2 * c["n"] if c["fs"] == "2n" else c["fs"])
    return x, fs


# ---------------------------------------------------------------- time
@sub(
    PID,
    gen.fd(
        s=gen.sig(min_n=3, max_n=300, max_ch=3),
        cplx=st.booleans(), ir=st.booleans(), win=st.booleans(), what=st.sampled_from(["time", "spl", "spl"]),
        norm=st.booleans(), dr=st.sampled_from([None, 100.0, 30]), w=st.sampled_from([0, 0, 1, 2, 5, 8]), cal=st.booleans(),
    ),
    quick=60,
    thorough=1200,
)
def over_time(c):
    """Samples and (averaged) levels of every channel, with window and
    imaginary part."""
    x = gen.data(c["s"])
    n, ch = x.shape
    fs = c["s"]["fs"]
    cls = dsp.ImpulseResponse if c["ir"] else dsp.Signal
    s = gen.mk(c["s"], cls)
    s.calibrated_signal = c["cal"]
    z = None
    if c["cplx"]:
        z = gen.imag(c["s"])
        s.time_data_imaginary = z.copy()
    win = None
    if c["ir"] and c["win"]:
        win = np.random.default_rng(c["s"]["seed"]).uniform(0.1, 1, (n, ch))
        s.set_window(win.copy())
    t = np.arange(n) / fs
    with plotting():
        if c["what"] == "time":
            fig, ax = s.plot_time()
        else:
            fig, ax = s.plot_spl(c["norm"], c["dr"], c["w"] / fs)
        got = [lines(a) for a in ax]
        lims = [a.get_ylim() for a in ax]
    check(len(got) == ch, "axes", len(got))
    for k in range(ch):
        L = got[k]
        check(len(L) == 1 + (z is not None) + (win is not None), f"{len(L)} curves")
        for xs, _ in L:
            close(xs, s.time_vector_s, "times", 1e-12)
        if c["what"] == "time":
            same(L[0][1], x[:, k], "samples")
            if z is not None:
                same(L[1][1], z[:, k], "imaginary part")
            if win is not None:
                close(L[-1][1], win[:, k] * np.max(np.abs(x[:, k])), "window", 1e-12)
            m = np.max(np.abs(x[:, k]))
            check(m == 0 or lims[k][0] <= -m and lims[k][1] >= m, "axis limits", lims[k])
            continue
        w = max(c["w"], 1)

        def avg(v):
            return np.convolve(v, np.ones(w) / w, "full")[(w - 1) // 2 : (w - 1) // 2 + n]

        p0 = 4e-10 if c["cal"] and not c["norm"] else 1.0
        p = avg(x[:, k] ** 2)
        ref = np.max(p) if c["norm"] else 1.0
        if np.max(p) == 0:
            continue
        close(10 ** (L[0][1] / 10) * p0 * ref, p, "level", 1e-9)
        # also in dB wherever the level is not lost in the average's round-off
        sel = p > (1e-5 if w > 1 else 1e-40) * np.max(p)
        close(L[0][1][sel], 10 * np.log10(p[sel] / p0 / ref), "level in dB", 0, 1e-6)
        if z is not None:
            q = avg(z[:, k] ** 2)
            sel = q > 1e-2 * np.max(q)
            close(L[1][1][sel], 10 * np.log10(q[sel] / p0 / ref), "level of the imaginary part", 0, 1e-6)
        if win is not None:
            d = L[-1][1] - 20 * np.log10(win[:, k])
            close(d, np.full(n, d[0]), "shape of the window", 0, 1e-6)
            m = np.max(x[:, k] ** 2)
            if w == 1 and m > 0:
                # drawn near the top of the level
                check(abs(d[0] - 10 * np.log10(m / p0 / ref)) < 1.5, "level of the window", d[0])
        if c["dr"] is not None:
            top = 10 * np.log10(np.max(p) / p0 / ref) + 1
            close(np.array(lims[k]), np.array([top - c["dr"], top]), "range of the axis", 0, 1e-6)
    return c["what"] + ("-window" if win is not None else "") + ("-complex" if z is not None else "")


# ------------------------------------------------------------- frequency
@sub(
    PID,
    gen.fd(**SYS, ir=st.booleans(), what=st.sampled_from(["phase", "group_delay", "group_delay", "bode"]),
           unwrap=st.booleans(), r=st.sampled_from([0, 1, 2]), lat=LATENCY, d=st.integers(0, 40), norm=st.integers(0, 6), gd=st.booleans(),
           sc=st.integers(0, 2), pad=st.booleans()),
    quick=100,
    thorough=2500,
)
def phase_and_delay(c):
    """Phase, group delay and Bode plots, with the latency removed as asked."""
    x, fs = samples(c, True)
    n, ch = x.shape
    ir = c["ir"] or c["what"] == "bode"
    lat, shift = c["lat"], np.zeros(ch)
    if c["what"] == "bode" and not ir:
        lat = None
    r = np.random.default_rng(c["seed"] + 1)
    if lat in ("peak", "min_phase"):
        # decaying responses with all zeros inside: nothing precedes the peak
        x = np.stack([sps.lfilter([1.0], np.poly(r.uniform(-0.3, 0.3, 2)), np.r_[1.0, np.zeros(n - 1)]) for _ in range(ch)], 1)
        y = np.zeros((n + c["d"], ch))
        y[c["d"] :] = x
        x, n = y, n + c["d"]
        if c["fs"] == "n":
            fs = n
        shift[:] = c["d"] / fs
    if lat == "array":
        d = r.uniform(-5, 20, ch).round(1)
        shift = d / fs
        lat = d if r.random() < 0.5 else list(d)
    cls = dsp.ImpulseResponse if ir else dsp.Signal
    s = cls(None, x.copy(), fs, constrain_amplitude=False)
    s.set_spectrum_parameters(SM.FFT, scaling=[SC.FFTBackward, SC.FFTOrthogonal, SC.AmplitudeSpectrum][c["sc"]], pad_to_fast_length=c["pad"])
    before = dict(getattr(s, "_spectrum_parameters", {}))
    full, _ = s.get_spectrum()
    rng = RANGES[c["r"]]
    if rng is not None and (fs / 2 < 2 * rng[0] or (c["fs"] in ("n", "2n") and c["r"] == 2)):
        rng = None
    mode = list(MN)[c["norm"]]
    if mode.name.startswith("One") and not full[0] < 1000 <= full[-1]:
        mode = MN.NoNormalization
    with plotting():
        if c["what"] == "phase":
            fig, ax = s.plot_phase(rng, c["unwrap"], 0, lat)
        elif c["what"] == "group_delay":
            fig, ax = s.plot_group_delay(rng, 0, lat)
        else:
            fig, ax = s.plot_bode(rng, mode, None, c["gd"], None, 0, lat)
            mags, ax = lines(ax[0]), ax[1]
        got = lines(ax)
    check(dict(getattr(s, "_spectrum_parameters", {})) == before, "settings changed")
    same(s.time_data, x, "samples changed")
    check(len(got) == ch, f"{len(got)} curves for {ch} channels")
    close(s.get_spectrum()[0], full, "bins of the spectrum afterwards", 1e-12)
    tol = 1e-6
    if isinstance(c["lat"], str) and c["lat"] in ("peak", "min_phase"):
        tol = 0.6  # sub-sample estimate of the start
    for k, (f, y) in enumerate(got):
        if c["what"] == "phase":
            shown(f, full, rng, "phase")
        elif c["what"] == "bode":
            close(f, full, "bode", 1e-9)
        X = dtft(x[:, k], f, fs)
        ok = np.abs(X) > 1e-6 * np.max(np.abs(X))
        df = f[1] - f[0]
        if c["what"] == "phase" or (c["what"] == "bode" and not c["gd"]):
            want = np.angle(X) + 2 * np.pi * f * shift[k]
            if tol > 1e-3:
                # deviation is that of less than tol samples
                e = np.angle(np.exp(1j * (y - want)))
                check(np.all(np.abs(e[ok]) <= 2 * np.pi * f[ok] / fs * tol + 1e-6), f"phase without latency {c['lat']}: {np.max(np.abs(e[ok]))}")
            else:
                mod2pi(y, want, ok, "phase")
            if c["what"] == "phase" and c["unwrap"]:
                check(np.all(np.abs(np.diff(y)) <= np.pi + 1e-6), "unwrapped phase jumps")
            else:
                check(np.all(np.abs(y) <= np.pi + 1e-6), "wrapped phase outside of -pi to pi")
        else:
            want, o3 = three_point_delay(x[:, k], f, df, fs, None if tol > 1e-3 else shift[k])
            if tol > 1e-3:
                want = want - shift[k]
            scale = 1e3 if c["what"] == "group_delay" else 1.0
            # one-sided at the ends of the axis; shown bins only
            o3 &= (f > 0.5 * df) & (f < fs / 2 - 1.5 * df)
            a = tol / fs if tol > 1e-3 else 1e-6 * max(1e-6, np.max(np.abs(want)))
            if np.any(o3):
                close(y[o3] / scale, want[o3], f"group delay ({c['lat']})", 1e-6, a)
        if c["what"] == "bode":
            sp = np.abs(s.get_spectrum()[1])
            j = 0 if mode.name.endswith("FirstChannel") else k
            b = mode.name.replace("FirstChannel", "")
            ref = dict(
                NoNormalization=lambda: 1.0,
                OneKhz=lambda: np.interp(1000.0, full, sp[:, j]),
                Max=lambda: np.max(sp[:, j]),
                Energy=lambda: np.sqrt(np.mean(sp[:, j] ** 2)),
            )[b]()
            m = sp[:, k] / ref
            g = m > 1e-12 * np.max(m)
            close(mags[k][1][g], 20 * np.log10(m[g]), f"magnitude {mode.name}", 0, 1e-6)
    return f"{c['what']}-{c['lat']}"


@sub(
    PID,
    gen.fd(**SYS, what=st.sampled_from(["spectrum", "magnitude", "magnitude", "phase", "group_delay", "bode"]), sm=st.sampled_from([1, 3, 6, 12]),
           r=st.sampled_from([0, 1, 2, 3]), sc=st.integers(0, len(list(SC)) - 1), welch=st.booleans(), unwrap=st.booleans(), pad=st.booleans()),
    quick=80,
    thorough=1500,
)
def smoothed_curves(c):
    """Smoothed curves are the smoothed spectrum, whatever part of it is
    shown: amplitudes (also of power spectra) and unwrapped phases are
    smoothed on the complete axis, and only for the plot."""
    x, fs = samples(c, True)
    n, ch = x.shape
    what, sm = c["what"], c["sm"]
    smooth = lambda q: np.asarray(dsp.tools.fractional_octave_smoothing(q, None, sm))
    welch = c["welch"] and what == "magnitude"
    ir = what == "bode"
    s = (dsp.ImpulseResponse if ir else dsp.Signal)(None, x.copy(), fs, constrain_amplitude=False)
    sc = list(SC)[c["sc"]]
    if what == "bode" or (what in ("phase", "group_delay") and not sc.is_amplitude_scaling()):
        sc = SC.FFTBackward
    par = dict(scaling=sc, pad_to_fast_length=c["pad"], window_length_samples=32)
    s.set_spectrum_parameters(SM.WelchPeriodogram if welch else SM.FFT, **par)
    f, sp = s.get_spectrum()
    rng = RANGES[c["r"]]
    df = f[1] - f[0]
    if rng is not None and fs / 2 < rng[0] + 4 * df:
        rng = None
    if what == "spectrum":
        s.set_spectrum_parameters(SM.FFT, smoothing=0, **dict(par, scaling=SC.FFTBackward))
        raw = s.get_spectrum()[1]
        gain = np.abs(sp) / np.maximum(np.abs(raw) ** (1 if sc.is_amplitude_scaling() else 2), 1e-300)
        ok = np.abs(raw) > 1e-9 * np.max(np.abs(raw))
        s.set_spectrum_parameters(SM.FFT, smoothing=sm, **par)
        got = s.get_spectrum()[1]
        want = np.maximum(smooth(np.abs(raw)), 0)
        power = not sc.is_amplitude_scaling()
        close(np.abs(got)[ok], (gain * want ** (2 if power else 1))[ok], "smoothed magnitude", 1e-7)
        if not power:
            mod2pi(np.angle(got), smooth(np.unwrap(np.angle(raw), axis=0)), ok & (np.abs(got) > 1e-9 * np.max(np.abs(got))), "smoothed phase")
        return f"spectrum-{sc.name}"
    own = what in ("magnitude", "phase") and not welch and c["seed"] % 2
    if own:
        # the smoothing of the spectrum is not that of the plot
        s.spectrum_smoothing = 2.0
    before = dict(s._spectrum_parameters)
    with plotting():
        if what == "magnitude":
            got = lines(s.plot_magnitude(rng, smoothing=sm)[1])
        elif what == "phase":
            got = lines(s.plot_phase(rng, c["unwrap"], sm)[1])
        elif what == "group_delay":
            got = lines(s.plot_group_delay(rng, sm)[1])
            raw = lines(s.plot_group_delay(None, 0)[1])
        else:
            ax = s.plot_bode(rng, smoothing=sm)[1]
            mags, got = lines(ax[0]), lines(ax[1])
    check(dict(s._spectrum_parameters) == before, "settings changed")
    if own:
        s.spectrum_smoothing = 0
    close(s.get_spectrum()[1], sp, "spectrum changed", 1e-12)
    check(len(got) == ch, f"{len(got)} curves for {ch} channels")
    a = np.abs(sp) if sc.is_amplitude_scaling() else np.abs(sp) ** 0.5
    a = smooth(a)
    ph = smooth(np.unwrap(np.angle(sp), axis=0))
    for k, (g, y) in enumerate(got):
        if what == "bode":
            close(g, f, "bode", 1e-9)
            i = np.arange(len(f))
        else:
            full = raw[k][0] if what == "group_delay" else f
            shown(g, full, rng, what)
            i = np.argmin(np.abs(full[:, None] - g[None, :]), axis=0)
        if what == "magnitude" or what == "bode":
            q = y if what == "magnitude" else mags[k][1]
            ok = a[i, k] > 1e-9 * np.max(a)
            close(q[ok], 20 * np.log10(a[i, k][ok]), f"smoothed magnitude {sc.name}", 0, 1e-6)
        if what == "phase" or what == "bode":
            mod2pi(y, ph[i, k], np.ones(len(y), bool), "smoothed phase", 1e-6)
        if what == "group_delay":
            want = smooth(raw[k][1])
            close(y, want[i], "smoothed group delay", 1e-7, 1e-9 * np.max(np.abs(want)))
    return f"{what}-{'all' if rng is None else 'part'}"


@sub(
    PID,
    gen.fd(**SYS, r=st.sampled_from([0, 1, 2]), phase=st.booleans(), welch=st.booleans()),
    quick=15,
    thorough=300,
)
def cross_spectra(c):
    """The cross-spectral matrix in dB with its unwrapped phase."""
    x, fs = samples(dict(c, ch=max(2, c["ch"])))
    ch = x.shape[1]
    s = dsp.Signal(None, x, fs, constrain_amplitude=False)
    s.set_spectrum_parameters(SM.WelchPeriodogram if c["welch"] else SM.FFT, window_length_samples=32, scaling=SC.PowerSpectralDensity)
    full, csm = s.get_csm()
    r = RANGES[c["r"]]
    if r is not None and fs / 2 < 2 * r[0] + 4 * (full[1] - full[0]):
        r = None
    with plotting():
        fig, ax = s.plot_csm(r, c["phase"])
        cells = [[lines(ax[i, j]) for j in range(ch)] for i in range(ch)]
        pos = {ax[i, j].get_subplotspec().num1: (i, j) for i in range(ch) for j in range(ch)}
        twins = {}
        for a in fig.axes:
            if not any(a is b for b in ax.ravel()) and a.get_lines():
                twins[pos[a.get_subplotspec().num1]] = lines(a)
    for i in range(ch):
        for j in range(ch):
            check(len(cells[i][j]) == 1, "curves per cell")
            f, y = cells[i][j][0]
            shown(f, full, r, "csm")
            sel = np.clip(np.rint((f - full[0]) / (full[1] - full[0])).astype(int), 0, len(full) - 1)
            v = csm[sel, i, j]
            ok = np.abs(v) > 1e-250
            close(y[ok], 10 * np.log10(np.abs(v[ok])), f"cell {i} {j}", 0, 1e-6)
            if i != j and c["phase"]:
                check((i, j) in twins, "no phase")
                p = twins[i, j][0][1]
                mod2pi(p, np.angle(v), ok, "phase of the cell")
                check(np.all(np.abs(np.diff(p)) <= np.pi + 1e-6), "phase is not unwrapped")
    check(c["phase"] or not twins, "phase shown although not wanted")
    return "phase" if c["phase"] else "magnitude"


@sub(
    PID,
    gen.fd(seed=gen.seeds(), ch=st.integers(1, 3), k=st.integers(0, 2), fs=st.sampled_from([2000, 8000, 48000]), log=st.booleans(), dr=st.sampled_from([50, 20]),
           cal=st.booleans(), sc=st.sampled_from(["FFTBackward", "AmplitudeSpectrum", "PowerSpectralDensity", "PowerSpectrum"]), what=st.sampled_from(["spectrogram", "waterfall"]),
           other=st.sampled_from(["FFTBackward", "PowerSpectrum"])),
    quick=25,
    thorough=400,
)
def over_time_and_frequency(c):
    """Spectrogram and waterfall: matrix in dB of the chosen channel."""
    r = np.random.default_rng(c["seed"])
    k = c["k"] % c["ch"]
    s = dsp.Signal(None, r.standard_normal((900, c["ch"])) * 0.2, c["fs"], constrain_amplitude=False)
    s.calibrated_signal = c["cal"]
    s.spectrum_scaling = SC[c["other"]]
    s.set_spectrogram_parameters(window_length_samples=128, scaling=SC[c["sc"]])
    t, f, sp = s.get_spectrogram()
    m = np.abs(sp[..., k])
    db = (10 if SC[c["sc"]].name.startswith("Power") else 20) * np.log10(np.maximum(m, 1e-300))
    if c["what"] == "waterfall":
        with plotting():
            fig, ax = dsp.transforms.plot_waterfall(s, k, c["dr"])
            (surf,) = ax.collections
            v = np.concatenate([np.asarray(q, float).reshape(-1, 3) for q in surf._faces]).T
            ts, fsx, zs = v[0], v[1], v[2]
        want = np.clip(db, db.max() - c["dr"], None)
        i = np.argmin(np.abs(ts[:, None] - t[None, :]), 1)
        j = np.argmin(np.abs(fsx[:, None] - f[None, :]), 1)
        close(t[i], ts, "times", 0, 1e-9 + 1e-6 * t[-1])
        close(f[j], fsx, "frequencies", 0, 1e-6 * f[-1])
        close(zs, want[j, i], "surface", 0, 1e-5)
        return "waterfall"
    with plotting():
        fig, ax = s.plot_spectrogram(k, c["log"], c["dr"])
        (im,) = ax.get_images()
        z, ext, clim = np.array(im.get_array(), float), im.get_extent(), im.get_clim()
        org, sca = im.origin, ax.get_yscale()
    i0 = max(1, int(np.argmin(np.abs(f - 20))))
    if c["cal"]:
        db = db - (20 * np.log10(2e-5))
    check(org == "lower" and sca == ("log" if c["log"] else "linear"), "axis", org, sca)
    ok = m[i0:] > 1e-200
    close(z[ok], db[i0:][ok], "image", 0, 1e-6)
    close(np.array(ext, float), np.array([t[0], t[-1], f[i0], f[-1]]), "extent", 1e-9)
    close(np.array(clim, float), np.array([z.max() - c["dr"], z.max()]), "dynamic range", 0, 1e-6)
    return "spectrogram"


# ---------------------------------------------------------------- filters
@sub(
    PID,
    gen.fd(seed=gen.seeds(), form=st.sampled_from(["ba", "sos", "zpk", "fir", "first"]), taps=st.integers(2, 30), fs=st.sampled_from([8000, 44100, 48000]),
           what=st.sampled_from(["magnitude", "phase", "group_delay", "zp", "taps"]), L=st.sampled_from([10, 512, 600]), r=st.sampled_from([0, 1, 2]), info=st.booleans(),
           unwrap=st.booleans(), zero=st.booleans(), norm=st.integers(0, 6), db=st.booleans()),
    quick=80,
    thorough=2000,
)
def of_filters(c):
    """Magnitude, phase, group delay, poles and zeros, taps of filters."""
    if c["what"] == "taps":
        c = dict(c, form="fir")
    f, b, a = build(dict(seed=c["seed"], k=2, form=c["form"], odd=False, taps=c["taps"], lead=0, fs=c["fs"], rmax=0.6))
    fs, L, r = c["fs"], c["L"], RANGES[c["r"]]
    order = max(len(b), len(a)) - 1
    if L < order and c["form"] != "fir":
        L = 512
    if c["form"] != "fir" and L < 100:
        L = 400
    mode = list(MN)[c["norm"]]
    with plotting():
        if c["what"] == "magnitude":
            fig, ax = f.plot_magnitude(L, r, mode, c["zero"], c["info"])
        elif c["what"] == "phase":
            fig, ax = f.plot_phase(L, r, c["unwrap"], c["info"])
        elif c["what"] == "group_delay":
            fig, ax = f.plot_group_delay(L, r, c["info"])
        elif c["what"] == "zp":
            fig, ax = f.plot_zp(c["info"])
        else:
            fig, ax = f.plot_taps(c["info"], c["db"])
        got = lines(ax)
        texts = [t.get_text() for t in ax.texts]
    check(any(len(t) > 20 for t in texts) == c["info"], "info box")
    if c["what"] == "zp":
        for (re, im), co, nm in zip(got, (b, a), ("zeros", "poles")):
            # both in positive powers of z, up to roots at the origin
            rt = re + 1j * im
            rt = rt[np.abs(rt) > 1e-9]
            co = np.trim_zeros(np.asarray(co, dtype=complex))
            p = np.atleast_1d(np.poly(rt)) * co[0]
            check(len(rt) == len(co) - 1, f"{len(rt)} {nm} for order {len(co) - 1}")
            close(p, co, nm, 1e-6)
        return "zp"
    (x, y), = got
    if c["what"] == "taps":
        close(x, np.arange(len(b)) / fs, "times", 1e-12)
        w = np.asarray(b, float)
        if c["db"]:
            g = np.abs(w) > 1e-12
            close(y[g], 20 * np.log10(np.abs(w[g])), "taps in dB", 0, 1e-9)
        else:
            close(y, w, "taps", 1e-12)
        return "taps"
    h = gen.freqz(b, a, x, fs)
    g = np.abs(h) > 1e-3 * np.max(np.abs(h))
    inside = (x >= (r[0] if r else 0) - fs / L) & (x <= (r[1] if r else fs) + fs / L)
    check(np.all(inside), "frequencies outside of the range")
    n = max(L, order)
    if r is None:
        check(x[0] == 0 and abs(x[-1] - fs / 2) <= fs / n, "whole range", x[[0, -1]])
    else:
        check(x[0] <= max(r[0], fs / n) + 2 * fs / n and x[-1] >= min(r[1], fs / 2) - 2 * fs / n, "range", x[[0, -1]])
    if c["what"] == "magnitude":
        m = np.abs(h) ** (2 if c["zero"] else 1)
        nm = mode.name.replace("FirstChannel", "")
        db = 20 * np.log10(np.maximum(m, 1e-30))
        ref = dict(NoNormalization=0.0, OneKhz=np.interp(1000.0, x, db), Max=np.max(db), Energy=10 * np.log10(np.mean(m**2)))[nm]
        close(y[g], db[g] - ref, f"magnitude {mode.name} zero {c['zero']}", 0, 2e-2)
    elif c["what"] == "phase":
        mod2pi(y, np.angle(h), g, "phase", 1e-3)
        check(np.all(np.abs(np.diff(y)) <= np.pi + 1e-6) if c["unwrap"] else np.all(np.abs(y) <= np.pi + 1e-6), "wrapping")
    else:
        kb, ka = np.arange(len(b)), np.arange(len(a))
        z = np.exp(-2j * np.pi * x / fs)
        gd = np.real(np.polyval((b * kb)[::-1], z) / np.polyval(np.asarray(b)[::-1], z) - np.polyval((a * ka)[::-1], z) / np.polyval(np.asarray(a)[::-1], z))
        close(y[g], gd[g] / fs * 1e3, "group delay", 1e-5, 1e-9)
    return c["what"]


@sub(
    PID,
    gen.fd(fc=st.sampled_from([[300], [300, 2000], [200, 900, 5000]]), fs=st.sampled_from([16000, 44100]), o=st.sampled_from([2, 4]),
           what=st.sampled_from(["magnitude", "phase", "phase", "group_delay"]), r=st.sampled_from([0, 1, 2]), summed=st.booleans(), zero=st.booleans(), unwrap=st.booleans()),
    quick=40,
    thorough=300,
)
def of_crossovers(c):
    """Linkwitz-Riley bands and their sum."""
    fs, r = c["fs"], RANGES[c["r"]]
    cb = dsp.filterbanks.linkwitz_riley_crossovers(c["fc"], [c["o"]] * len(c["fc"]), fs)
    L = 4096
    with plotting():
        if c["what"] == "magnitude":
            fig, ax = cb.plot_magnitude(L, M.Parallel, r, c["zero"])
        elif c["what"] == "phase":
            fig, ax = cb.plot_phase(L, M.Summed if c["summed"] else M.Parallel, r, c["unwrap"])
        else:
            fig, ax = cb.plot_group_delay(L, M.Summed if c["summed"] else M.Parallel, r)
        got = lines(ax)
    d = dsp.generators.dirac(length_samples=L, number_of_channels=1, delay_samples=L // 2 if c["zero"] and c["what"] == "magnitude" else 0, sampling_rate_hz=fs)
    bands = cb.filter_signal(d, M.Parallel, zero_phase=c["zero"] and c["what"] == "magnitude")
    ir = np.stack([b.time_data[:, 0] for b in bands], 1)
    total = ir.sum(1, keepdims=True)
    want = np.hstack([ir, total]) if c["what"] == "magnitude" else (total if c["summed"] else ir)
    check(len(got) == want.shape[1], f"{len(got)} curves for {want.shape[1]}")
    full = np.fft.rfftfreq(L, 1 / fs)
    for k, (f, y) in enumerate(got):
        if c["what"] != "phase":
            shown(f, full, r, c["what"])
        i = np.rint(f / (fs / L)).astype(int)
        H = np.fft.rfft(want[:, k])[i]
        ok = np.abs(H) > 1e-3 * np.max(np.abs(H))
        if c["what"] == "magnitude":
            close(y[ok], 20 * np.log10(np.abs(H[ok])), f"magnitude {k}", 0, 1e-4)
        elif c["what"] == "phase":
            mod2pi(y, np.angle(H), ok, "phase", 1e-4)
            check(np.all(np.abs(np.diff(y)) <= np.pi + 1e-6) if c["unwrap"] else np.all(np.abs(y) <= np.pi + 1e-6), "wrapping")
        else:
            gd, o3 = three_point_delay(want[:, k], f, fs / L, fs)
            o3 &= ok & (f > fs / L) & (f < fs / 2 - 2 * fs / L)
            close(y[o3], gd[o3] * 1e3, "group delay", 1e-4, 1e-5)
    return c["what"]


@sub(
    PID,
    gen.fd(seed=gen.seeds(), forms=st.lists(st.sampled_from(["ba", "sos", "fir", "fir"]), min_size=1, max_size=3), taps=st.integers(2, 30), fs=st.sampled_from([8000, 44100]),
           what=st.sampled_from(["magnitude", "phase", "group_delay"]), mode=st.sampled_from(["Parallel", "Sequential", "Summed"]), L=st.sampled_from([12, 500, 601]), r=st.sampled_from([0, 1, 2]),
           zero=st.booleans(), unwrap=st.booleans()),
    quick=60,
    thorough=1200,
)
def of_filter_banks(c):
    """Every filter of a bank, their product or their sum."""
    fs, r, L = c["fs"], RANGES[c["r"]], c["L"]
    made = [build(dict(seed=c["seed"] + i, k=2, form=k, odd=False, taps=c["taps"], lead=0, fs=fs, rmax=0.6)) for i, k in enumerate(c["forms"])]
    if L < 100 and set(c["forms"]) != {"fir"}:
        L = 500
    order = max(f.order for f, _, _ in made)
    if c["mode"] == "Sequential" and L < 100:
        # the product is longer than each of its factors
        L = 500
    zero = c["zero"] and c["what"] == "magnitude"
    if zero:
        L = max(L, 500)
    if L == order:
        L += 1
    bank = dsp.FilterBank([f for f, _, _ in made])
    m = M[c["mode"]]
    with plotting():
        if c["what"] == "magnitude":
            fig, ax = bank.plot_magnitude(L, m, r, zero)
        elif c["what"] == "phase":
            fig, ax = bank.plot_phase(L, m, r, c["unwrap"])
        else:
            fig, ax = bank.plot_group_delay(L, m, r)
        got = lines(ax)
        xlim = ax.get_xlim()
    if r is not None:
        close(np.array(xlim), np.array(r, float), "range")
    # the transform may be longer than the responses
    n = int(np.rint(fs / (got[0][0][1] - got[0][0][0])))
    check(L <= n or n > order, f"{n} samples for order {order} and length {L}")
    full = np.fft.rfftfreq(n, 1 / fs)

    def curve(f):
        h = np.stack([gen.freqz(b, a, f, fs) for _, b, a in made])
        if zero:
            h = np.abs(h) ** 2
        return dict(Parallel=h, Sequential=np.prod(h, 0)[None], Summed=np.sum(h, 0)[None])[c["mode"]]

    check(len(got) == (len(made) if c["mode"] == "Parallel" else 1), f"{len(got)} curves")
    for k, (f, y) in enumerate(got):
        if c["what"] == "magnitude":
            shown(f, full, r, "bank")
        else:
            close(f, full, "frequencies", 1e-9)
        h = curve(f)[k]
        ok = np.abs(h) > 1e-3 * np.max(np.abs(h))
        if c["what"] == "magnitude":
            close(y[ok], 20 * np.log10(np.abs(h[ok])), "magnitude", 0, 1e-4)
        elif c["what"] == "phase":
            mod2pi(y, np.angle(h), ok, "phase", 1e-4)
            check(np.all(np.abs(np.diff(y)) <= np.pi + 1e-6) if c["unwrap"] else np.all(np.abs(y) <= np.pi + 1e-6), "wrapping")
        else:
            df = fs / n
            p = np.stack([curve(f + i * df)[k] for i in (-1, 0, 1)])
            d = np.angle(p[1:] / p[:-1])
            ok &= np.all(np.abs(p) > 1e-2 * np.max(np.abs(p)), 0) & np.all(np.abs(d) < 2.9, 0)
            ok[[0, -1]] = False
            close(y[ok], -d.sum(0)[ok] / (4 * np.pi * df) * 1e3, "group delay", 1e-4, 1e-4)
    return c["what"] + "-" + c["mode"]


@sub(
    PID,
    gen.fd(n=st.sampled_from([17, 64, 65]), fs=st.sampled_from([16000, 44100]), r=st.sampled_from([0, 1, 2]), mode=st.sampled_from(["Parallel", "Summed"]), down=st.booleans(), L=st.sampled_from([500, 512])),
    quick=10,
    thorough=100,
)
def of_qmf(c):
    """Quadrature mirror filters with and without downsampling."""
    fs, r = c["fs"], RANGES[c["r"]]
    lp = dsp.Filter.fir_filter(c["n"], [fs / 4], dsp.FilterPassType.Lowpass, sampling_rate_hz=fs)
    bank = dsp.filterbanks.qmf_crossover(lp)
    with plotting():
        fig, ax = bank.plot_magnitude(c["L"], M[c["mode"]], r, c["down"])
        got = lines(ax)
    d = dsp.generators.dirac(length_samples=c["L"], number_of_channels=1, sampling_rate_hz=fs)
    out = bank.filter_signal(d, M[c["mode"]], downsample=c["down"])
    outs = [b.time_data[:, 0] for b in out] if c["mode"] == "Parallel" else [out.time_data[:, 0]]
    rate = out.sampling_rate_hz
    check(len(got) == len(outs), "curves", len(got))
    for k, (f, y) in enumerate(got):
        X = dtft(outs[k], f, rate)
        shown(f, np.fft.rfftfreq(len(outs[k]), 1 / rate), r, "qmf") if len(outs[k]) in (500, 512, 256, 250) else None
        ok = np.abs(X) > 1e-3 * np.max(np.abs(X))
        e = y[ok] - 20 * np.log10(np.abs(X[ok]))
        # the scaling of the spectrum is free, its shape is not
        check(np.ptp(e) < 1e-6 and abs(e[0]) < 1e-6, f"band {k} off by {e[0]} to {np.max(e)} dB")
    return c["mode"] + str(c["down"])


@sub(
    PID,
    gen.fd(f0=st.sampled_from([300, 1000, 3000]), q=st.sampled_from([0.7, 1.0, 2.0]), fs=st.sampled_from([16000, 48000]), what=st.sampled_from(["magnitude", "phase", "group_delay"]), r=st.sampled_from([0, 1, 2]), unwrap=st.booleans()),
    quick=10,
    thorough=100,
)
def of_state_variable_filters(c):
    """All four outputs of the state-variable filter."""
    from dsptoolbox.filterbanks import StateVariableFilter

    fs, r, L = c["fs"], RANGES[c["r"]], 2048
    f_ = StateVariableFilter(c["f0"], c["q"], fs)
    with plotting():
        if c["what"] == "magnitude":
            fig, ax = f_.plot_magnitude(L, r)
        elif c["what"] == "phase":
            fig, ax = f_.plot_phase(L, r, c["unwrap"])
        else:
            fig, ax = f_.plot_group_delay(L, r)
        got = lines(ax)
    f_.reset_state() if hasattr(f_, "reset_state") else None
    irs = StateVariableFilter(c["f0"], c["q"], fs).get_ir(L)
    ir = np.stack([b.time_data[:, 0] for b in irs], 1)
    check(len(got) == 4, "curves", len(got))
    for k, (f, y) in enumerate(got):
        X = dtft(ir[:, k], f, fs)
        ok = np.abs(X) > 1e-3 * np.max(np.abs(X))
        if c["what"] == "magnitude":
            close(y[ok], 20 * np.log10(np.abs(X[ok])), "magnitude", 0, 1e-4)
        elif c["what"] == "phase":
            mod2pi(y, np.angle(X), ok, "phase", 1e-4)
            check(np.all(np.abs(np.diff(y)) <= np.pi + 1e-6) if c["unwrap"] else np.all(np.abs(y) <= np.pi + 1e-6), "wrapping")
        else:
            gd, o3 = three_point_delay(ir[:, k], f, f[1] - f[0], fs)
            o3 &= ok & (f > 2 * fs / L) & (f < fs / 2 - 2 * fs / L)
            close(y[o3], gd[o3] * 1e3, "group delay", 1e-4, 1e-5)
    return c["what"]


# --------------------------------------------------------------- spectra
@sub(
    PID,
    gen.fd(seed=gen.seeds(), n=st.integers(5, 80), ch=st.integers(1, 3), cplx=st.booleans(), db=st.booleans(), norm=st.integers(0, 6), dr=st.sampled_from([None, 20.0]), coh=st.booleans(), edge=st.booleans()),
    quick=50,
    thorough=1000,
)
def of_spectra(c):
    """Magnitudes (normalised per channel or to the first one), coherence."""
    r = np.random.default_rng(c["seed"])
    f = np.sort(r.uniform(20, 8000, c["n"]))
    if c["edge"]:
        f = np.linspace(100, 1000, c["n"])
    f[0], f[-1] = min(f[0], 900), max(f[-1], 1000)
    v = r.uniform(0.1, 2, (c["n"], c["ch"]))
    if c["cplx"]:
        v = v * np.exp(2j * np.pi * r.random(v.shape))
    s = dsp.Spectrum(f, v)
    if c["coh"]:
        co = r.random(v.shape)
        s.set_coherence(co)
        with plotting():
            fig, ax = s.plot_coherence()
            got = [lines(a)[0] for a in ax]
        for k, (x, y) in enumerate(got):
            same(x, f, "frequencies")
            same(y, co[:, k], "coherence")
        return "coherence"
    mode = list(MN)[c["norm"]]
    with plotting():
        fig, ax = s.plot_magnitude(c["db"], mode, c["dr"])
        got = lines(ax)
        label = ax.get_ylabel()
    check(("dB" in label) == c["db"] and "Magnitude" in label, f"label {label}")
    check(len(got) == c["ch"], "curves", len(got))
    m = np.abs(v)
    b = mode.name.replace("FirstChannel", "")
    for k, (x, y) in enumerate(got):
        same(x, f, "frequencies")
        j = 0 if mode.name.endswith("FirstChannel") else k
        if b == "OneKhz":
            # the object's own interpolation (checked with C16)
            ref = s.copy().get_interpolated_spectrum(np.array([1000.0]), output_type=dsp.SpectrumType.Magnitude)[0, j]
        else:
            ref = dict(NoNormalization=1.0, Max=m[:, j].max(), Energy=np.sqrt(np.mean(m[:, j] ** 2)))[b]
        w = m[:, k] / ref
        if c["db"]:
            w = 20 * np.log10(w)
            if c["dr"] is not None:
                ok = w > np.max(w) - c["dr"]
                check(np.all(y >= max(v2[1].max() for v2 in got) - c["dr"] - 1e-6), "dynamic range")
                ok &= w > max(v2[1].max() for v2 in got) - c["dr"]
                w, y = w[ok], y[ok]
        close(y, w, f"magnitude {mode.name}", 1e-9, 1e-9)
    return mode.name


# ------------------------------------------------------- generic templates
@sub(
    PID,
    gen.fd(seed=gen.seeds(), n=st.integers(3, 40), ch=st.integers(1, 3), one=st.booleans(), xnone=st.booleans(), log=st.booleans(), labels=st.booleans(),
           rx=st.booleans(), ry=st.booleans(), what=st.sampled_from(["plot", "two", "sub", "sub_row", "matrix"]), rz=st.sampled_from([None, 10.0]), lower=st.booleans(), bar=st.booleans()),
    quick=60,
    thorough=1000,
)
def templates(c):
    """The general plots draw what they are given."""
    from dsptoolbox import plots

    r = np.random.default_rng(c["seed"])
    m = r.standard_normal((c["n"], c["ch"]))
    m2 = r.standard_normal((c["n"], c["ch"]))
    if c["one"]:
        m, m2 = m[:, 0], m2[:, 0]
    x = None if c["xnone"] else np.linspace(30, 15000, c["n"])
    wx = np.arange(c["n"]) if x is None else x
    log = c["log"] and x is not None
    rx = [100, 10000] if c["rx"] and x is not None else None
    ry = [-1.5, 2.5] if c["ry"] else None
    ry2 = [-4.0, 7.5] if c["ry"] != c["labels"] else None
    cols = np.reshape(m, (c["n"], -1))
    cols2 = np.reshape(m2, (c["n"], -1))
    lab = [f"L{i}" for i in range(cols.shape[1])] if c["labels"] else None
    if c["labels"] and cols.shape[1] == 1 and c["lower"]:
        lab = "L0"
    what = c["what"]
    with plotting():
        if what == "plot":
            fig, ax = plots.general_plot(x, m.copy(), rx, ry, log, lab, xlabel="X", ylabel="Y", info_box="Z" * 30 if c["bar"] else None)
            axes, want = [ax], [cols]
        elif what == "two":
            fig, axes = plots.general_plot_two_axes(x, m.copy(), x, m2.copy(), rx, ry, ry2, log, lab, lab, "X", "Y", "Y2", info_box="Z" * 30 if c["bar"] else None)
            want = [cols, cols2]
        elif what in ("sub", "sub_row"):
            nm = [f"L{i}" for i in range(cols.shape[1])]
            fig, axes = plots.general_subplots_line(x, m.copy(), what == "sub", True, c["lower"], log, (nm if c["labels"] else "X") if c["bar"] else None, nm if c["labels"] else None, rx, ry)
            want = [cols[:, [i]] for i in range(cols.shape[1])]
        else:
            mm = np.reshape(m, (c["n"], -1))
            fig, ax = plots.general_matrix_plot(mm, [1, 5] if c["rx"] else None, [30, 3000] if c["rx"] else None, c["rz"], "X", "Y", "Z", False, c["log"] and c["rx"], c["bar"], lower_origin=c["lower"])
            (im,) = ax.get_images()
            got = np.array(im.get_array(), float), im.get_clim(), im.get_extent(), im.origin, ax.get_xlabel(), ax.get_ylabel(), len(fig.axes)
        if what != "matrix":
            got = [lines(a) for a in axes]
            lims = [(a.get_xlim(), a.get_ylim(), a.get_xscale(), a.get_xlabel(), a.get_ylabel()) for a in axes]
            texts = [t.get_text() for t in axes[0].texts]
    if what == "matrix":
        same(got[0], mm, "matrix")
        close(np.array(got[1], float), np.array([mm.max() - c["rz"] if c["rz"] else mm.min(), mm.max()]), "colour range", 1e-12)
        if c["rx"]:
            close(np.array(got[2], float), np.array([1, 5, 30, 3000.0]), "extent")
        check(got[3] == ("lower" if c["lower"] else "upper"), "origin")
        check(got[4:6] == ("X", "Y") and got[6] == 1 + c["bar"], "labels and colour bar")
        return what
    check(len(got) == len(want), "axes")
    for k, (g, w) in enumerate(zip(got, want)):
        check(len(g) == w.shape[1], f"{len(g)} curves for {w.shape[1]}")
        for i, (gx, gy) in enumerate(g):
            same(gx, np.asarray(wx, float), "x")
            same(gy, w[:, i], "y")
        xl, yl, sc, xlab, ylab = lims[k]
        check(sc == ("log" if log else "linear"), f"scale {sc}")
        if rx is not None:
            close(np.array(xl), np.array(rx, float), "x range")
        if ry is not None and not (what == "two" and k == 1):
            close(np.array(yl), np.array(ry, float), "y range")
        if ry2 is not None and what == "two" and k == 1:
            close(np.array(yl), np.array(ry2, float), "second y range")
    if what in ("plot", "two"):
        check(lims[0][3] == "X" and lims[0][4] == "Y", "labels")
        check(("Z" * 30 in texts) == c["bar"], "info box")
    elif c["labels"]:
        check([l[4] for l in lims] == nm, "labels of y")
    if what == "two":
        check(lims[1][4] == "Y2", "second label")
    return what


# ---------------------------------------------------------- other objects
@sub(
    PID,
    gen.fd(what=st.sampled_from(["compressor", "delay", "lfo"]), th=st.sampled_from([-30.0, -12.5, -6.0]), ratio=st.sampled_from([1.5, 4.0, 20.0]), knee=st.sampled_from([0.0, 6.0, 12.0]), mix=st.sampled_from([100.0, 50.0]),
           down=st.booleans(), ms=st.sampled_from([10.0, 33.0, 200.0]), fb=st.sampled_from([0.2, 0.5, 0.9]), wave=st.sampled_from(["harmonic", "sawtooth", "square", "triangle"])),
    quick=20,
    thorough=300,
)
def of_effects(c):
    """Static curve of the compressor, repetitions of the delay, waveforms."""
    E = dsp.effects
    with plotting():
        if c["what"] == "compressor":
            e = E.Compressor(c["th"], 10, 20, c["ratio"])
            e.set_advanced_parameters(knee_factor_db=c["knee"], mix_percent=c["mix"], downward_compression=c["down"])
            fig, ax = e.show_compression()
        elif c["what"] == "delay":
            e = E.DigitalDelay(c["ms"], c["fb"])
            fig, ax = e.plot_delay()
        else:
            e = E.LFO(2.0, c["wave"], False)
            fig, ax = e.plot_waveform()
        got = lines(ax)
    if c["what"] == "compressor":
        (x, y), (x2, z) = got[:2]
        same(x, y, "line of unchanged gains")
        same(x2, x, "input levels")
        T, R, W = c["th"], c["ratio"], c["knee"]
        if c["down"]:
            w = np.where(2 * (x - T) < -W, x, np.where(2 * np.abs(x - T) <= W, x + (1 / R - 1) * (x - T + W / 2) ** 2 / (2 * W or 1), T + (x - T) / R))
            if W == 0:
                w = np.where(x <= T, x, T + (x - T) / R)
        else:
            w = np.where(x >= T + W / 2, x, T + (x - T) / R)
            k = np.abs(x - T) < W / 2
            w = np.where(k, z if c["mix"] == 100.0 else w, w)
        mixed = 10 ** (w / 20) * c["mix"] / 100 + 10 ** (x / 20) * (1 - c["mix"] / 100)
        sel = np.abs(x - T) > W / 2 if not c["down"] else np.ones(len(x), bool)
        close(z[sel], 20 * np.log10(mixed[sel]), "static curve", 0, 1e-6)
        check(x[0] < T < x[-1] + 1e-9, "range of input levels")
    elif c["what"] == "delay":
        (x, y), = got
        k = np.flatnonzero(y > -100)
        D = c["ms"]
        want = np.arange(len(k)) * D
        close(x[k], want, "times of the repetitions / ms", 0, 0.6 * len(k))
        close(y[k], 20 * np.log10(c["fb"]) * np.arange(len(k)), "decay of the repetitions", 0, 1e-6)
        check(len(k) >= 5, "too few repetitions")
    else:
        (x, y), = got
        n = len(y) // 2
        check(np.max(np.abs(y)) > 0.5, "no waveform")
        # rounding decides about single samples at the jumps of the wave form
        off = np.abs(y[n : 2 * n] - y[:n]) > 1e-6
        check(np.sum(off) <= 4 and not np.any(off[1:] & off[:-1]), "two equal periods", np.sum(off))
    return c["what"]


@sub(
    PID,
    gen.fd(seed=gen.seeds(), n=st.integers(2, 12), dims=st.sampled_from(["x", "y", "z", "xy", "xz", "yz", "xyz"]), proj=st.sampled_from([None, "3d", "2D"]), what=st.sampled_from(["points", "setting"])),
    quick=25,
    thorough=300,
)
def of_points(c):
    """Positions of points, microphones and grids."""
    from dsptoolbox import beamforming as bf

    r = np.random.default_rng(c["seed"])
    p = np.zeros((c["n"], 3))
    for d in c["dims"]:
        p[:, "xyz".index(d)] = r.permutation(c["n"]) + r.uniform(0, 0.4, c["n"])
    pos = dict(x=p[:, 0].copy(), y=p[:, 1].copy(), z=p[:, 2].copy())

    def points3(sc):
        xs, ys, zs = sc._offsets3d
        return np.stack([np.asarray(xs, float), np.asarray(ys, float), np.asarray(zs, float)], 1)

    if c["what"] == "setting":
        mics = bf.MicArray(pos)
        g = r.uniform(1, 3, (4, 3))
        grid = bf.Grid(dict(x=g[:, 0], y=g[:, 1], z=g[:, 2]))
        s = dsp.Signal(None, r.standard_normal((300, c["n"])) * 0.1, 8000)
        b = bf.BeamformerDASFrequency(s, mics, grid, bf.SteeringVector())
        with plotting():
            fig, ax = b.plot_setting()
            a, q, m = [points3(k) for k in ax.collections[:3]]
        close(a, p, "microphones", 1e-12)
        close(q, g, "grid", 1e-12)
        close(m[0], np.asarray(mics.array_center_coordinates, float).ravel(), "centre microphone", 1e-12)
        return "setting"
    g = bf.Grid(pos)
    proj = c["proj"]
    if len(c["dims"]) == 3 and proj == "2D":
        proj = None
    with plotting():
        fig, ax = g.plot_points(proj)
        (sc,) = ax.collections
        if len(c["dims"]) == 3 or proj == "3d":
            got = points3(sc)
            names = [ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()]
        else:
            got = np.asarray(sc.get_offsets(), float)
            names = [ax.get_xlabel(), ax.get_ylabel()]
    idx = ["xyz".index(n[1]) for n in names]
    check(set(c["dims"]) <= {"xyz"[i] for i in idx}, f"axes {names} for {c['dims']}")
    close(got, p[:, idx], "points", 1e-12)
    return c["dims"]
