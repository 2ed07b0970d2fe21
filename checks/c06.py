"""C06: spectrogram by its definition, and its inverse.

Oracles: frame loop and DFT by definition; round trip through istft."""

import warnings

import numpy as np
from hypothesis import strategies as st

import dsptoolbox as dsp
from checks.c05 import SCALINGS, SC, is_power, physical, power_factor, rdft, window_of
from vt import gen
from vt.core import check, close, fail, finding, raises, sub

PID = "C06"
warnings.simplefilter("ignore")

GP = gen.fd(
    s=gen.sig(20, 500, 3, kinds=["noise", "sines", "decay", "ramp", "impulse"]),
    wl=st.integers(4, 7),
    win=st.sampled_from(["hann", "boxcar", "hamming", "blackman", "kaiser", "flattop"]),
    ov=st.sampled_from([0, 25, 50, 50, 75, 40, 33, 87.5]),
    extra=st.sampled_from([None, None, 0, 1, 5, 32]),
    det=st.booleans(),
    pad=st.booleans(),
    sc=st.integers(0, len(SCALINGS) - 1),
)


def params(c):
    wl = 2 ** c["wl"]
    return dict(
        window_length_samples=wl,
        window_type=window_of(c["win"], wl)[0],
        overlap_percent=c["ov"],
        fft_length_samples=None if c["extra"] is None else wl + c["extra"],
        detrend=c["det"],
        padding=c["pad"],
        scaling=SCALINGS[c["sc"]],
    )


def geometry(c):
    wl = 2 ** c["wl"]
    ov = int(c["ov"] / 100 * wl + 0.5)
    return wl, ov, wl - ov, wl if c["extra"] is None else wl + c["extra"]


def reference(x, fs, c):
    wl, ov, step, nfft = geometry(c)
    sc = SCALINGS[c["sc"]]
    _, w = window_of(c["win"], wl)
    off = ov if c["pad"] else 0
    xp = np.concatenate([np.zeros((off, x.shape[1])), x, np.zeros((off + 2 * wl, x.shape[1]))])
    k, F, T = 0, [], []
    while k < len(x) + 2 * off:
        f = xp[k : k + wl]
        if c["det"]:
            f = f - f.mean(axis=0)
        F.append(rdft(f * w[:, None], nfft))
        T.append((k - off + wl / 2) / fs)
        k += step
    F = np.stack(F, axis=1)
    pf = power_factor(sc, w, nfft, fs)[:, None, None]
    return (
        np.array(T),
        np.arange(nfft // 2 + 1) * fs / nfft,
        np.abs(F) ** 2 * pf if is_power(sc) else F * np.sqrt(pf),
    )


@sub(PID, GP, quick=250, cap=22)
def definition(c):
    """Frames, axes and scaling of the spectrogram."""
    x, fs = gen.data(c["s"]), c["s"]["fs"]
    s = gen.mk(c["s"])
    s.set_spectrogram_parameters(**params(c))
    t, f, S = s.get_spectrogram()
    T, F, R = reference(x, fs, c)
    close(f, F, "frequencies")
    close(t, T, "times", 1e-9, 1e-9 / fs)
    close(S, R, SCALINGS[c["sc"]].name, 1e-9, 1e-16)
    return SCALINGS[c["sc"]].name + ("-pad" if c["pad"] else "") if S.shape[1] > 2 else None


@sub(PID, GP, quick=250, cap=22)
def inverse(c):
    """istft gives back the signal wherever windows add up to something."""
    wl, ov, step, nfft = geometry(c)
    c["det"] = False
    sc = SCALINGS[c["sc"]]
    s = gen.mk(c["s"])
    x, n = gen.data(c["s"]), c["s"]["n"]
    p = params(c)
    s.set_spectrogram_parameters(**p)
    S = s.get_spectrogram()[2]
    S0 = S.copy()
    forms = dict(
        orig=lambda: dsp.transforms.istft(S, original_signal=s),
        params=lambda: dsp.transforms.istft(S, parameters=p, sampling_rate_hz=s.sampling_rate_hz),
        explicit=lambda: dsp.transforms.istft(
            S, sampling_rate_hz=s.sampling_rate_hz,
            window_length_samples=wl, window_type=p["window_type"],
            overlap_percent=c["ov"], fft_length_samples=p["fft_length_samples"],
            padding=c["pad"], scaling=sc),
    )
    if is_power(sc):
        for k, fn in forms.items():
            raises(fn, f"{k}: inverting a power spectrogram")
        return "power refused"
    _, w = window_of(c["win"], wl)
    off = ov if c["pad"] else 0
    env = np.zeros(n + 2 * off + 2 * wl)
    for k in range(0, n + 2 * off, step):
        env[k : k + wl] += w**2
    good = env[off : off + n] > 1e-3
    if not c["pad"]:
        # documented distortion at the edges
        good[: min(wl, n)] = False
    if not np.any(good):
        return None
    for k, fn in forms.items():
        r = fn()
        check(r.sampling_rate_hz == s.sampling_rate_hz, f"{k}: rate")
        check(r.number_of_channels == s.number_of_channels, f"{k}: channels")
        if k == "orig":
            check(r.length_samples == n, f"{k}: length {r.length_samples}, not {n}")
        check(r.length_samples >= n, f"{k}: too short")
        check(r.length_samples <= n + wl + step, f"{k}: too long")
        f = 1.0 / (r.amplitude_scale_factor if r.constrain_amplitude else 1.0)
        close(r.time_data[:n][good] * f, x[good], f"{k}: reconstruction", 1e-7, 1e-9 * np.max(np.abs(x)))
        check(np.array_equal(S, S0), f"{k}: spectrogram changed")
    return sc.name + ("-pad" if c["pad"] else "") + (f"-fft{c['extra']}" if c["extra"] else "")


@sub(
    PID,
    gen.fd(
        wl=st.integers(6, 9),
        ov=st.sampled_from([50, 75]),
        k=st.floats(0.15, 0.85),
        at=st.floats(0.2, 0.8),
        fs=st.sampled_from(gen.FS),
        ch=st.integers(1, 3),
        pad=st.booleans(),
        db=st.booleans(),
    ),
    quick=80,
)
def events_show_up(c):
    """A click appears in the frame whose time is nearest, a tone burst at
    its frequency, on its channel."""
    wl = 2 ** c["wl"]
    n, fs = wl * 8, c["fs"]
    pos = int(n * c["at"])
    x = np.zeros((n, c["ch"]))
    ch = c["ch"] - 1
    x[pos, ch] = 1
    s = dsp.Signal(None, x, fs)
    s.set_spectrogram_parameters(wl, overlap_percent=c["ov"], padding=c["pad"])
    t, f, S = s.get_spectrogram()
    e = np.sum(np.abs(S[:, :, ch]) ** 2, axis=0)
    best = np.argmax(e)
    step = wl - int(c["ov"] / 100 * wl + 0.5)
    check(abs(t[best] * fs - pos) <= step / 2 + 1, f"click at {pos}, frame at {t[best] * fs}")
    for i in range(c["ch"] - 1):
        check(np.all(S[:, :, i] == 0), "crosstalk")
    k = int(wl / 2 * c["k"])
    y = np.zeros((n, c["ch"]))
    y[:, ch] = np.sin(2 * np.pi * k * np.arange(n) / wl)
    s = dsp.Signal(None, y, fs)
    s.set_spectrogram_parameters(
        wl, overlap_percent=c["ov"], padding=False, scaling=SC.AmplitudeSpectrum)
    t, f, S = s.get_spectrogram()
    m = np.abs(S[:, 0, ch])
    check(f[np.argmax(m)] == f[k] and abs(f[k] - k * fs / wl) < 1e-6, "tone in the wrong bin")
    close(m[k], 1 / np.sqrt(2), "tone level", 1e-6)
    return f"ov{c['ov']}"


@sub(
    PID,
    gen.fd(
        s=gen.sig(20, 400, 3, kinds=["noise", "sines"]),
        wl=st.integers(5, 60),
        step=st.integers(1, 40),
        keep=st.booleans(),
        win=st.sampled_from([None, "hann", "hamming", "array"]),
        orig=st.booleans(),
    ),
    quick=250,
)
def framing(c):
    """tools.framed_signal and its reconstruction."""
    x = gen.data(c["s"])
    n, wl, step = len(x), c["wl"], min(c["step"], c["wl"])
    x0 = x.copy()
    if n < wl and not c["keep"]:
        return None
    F = dsp.tools.framed_signal(x, wl, step, c["keep"])
    check(np.array_equal(x, x0), "input changed")
    if c["keep"]:
        k = -(-n // step)
    else:
        k = max((n - wl) // step + 1, 0)
    if not c["keep"] and F.shape[1] == k - 1 and (n - wl) % step == 0:
        framing_rest(c, x, F, k - 1, wl, step)
        fail(f"{F.shape[1]} frames of {k} complete ones", "framing-last-complete-frame")
    return framing_rest(c, x, F, k, wl, step)


def framing_rest(c, x, F, k, wl, step):
    n = len(x)
    check(F.shape == (wl, k, x.shape[1]), f"shape {F.shape}, {k} frames")
    xp = np.concatenate([x, np.zeros((wl + step, x.shape[1]))])
    for i in range(k):
        close(F[:, i], xp[i * step : i * step + wl], f"frame {i}", 0, 0)
    if k == 0:
        return None
    F[...] = F
    win = c["win"]
    w = np.ones(wl)
    arg = None
    if win == "array":
        w = 0.3 + np.random.default_rng(1).random(wl)
        arg = w.copy()
    elif win is not None:
        arg, w = win, window_of(win, wl)[1]
    G = F * w[:, None, None] if win else F
    G0 = G.copy()
    if not win and step != wl:
        return "frames"
    r = dsp.tools.reconstruct_from_framed_signal(
        G, step, arg, original_signal_length=n if c["orig"] else None)
    check(np.array_equal(G, G0), "frames changed")
    if win == "array":
        check(np.array_equal(arg, w), "window changed")
    total = (k - 1) * step + wl
    check(len(r) == (n if c["orig"] else total), f"length {len(r)}")
    env = np.zeros(total)
    for i in range(k):
        env[i * step : i * step + wl] += w**2
    good = np.flatnonzero(env > 1e-3)
    good = good[good < min(n, total)]
    close(r[good], x[good], "reconstruction", 1e-9)
    rest = r[min(n, total) :]
    check(np.all(rest == 0) or np.max(np.abs(rest)) < 1e-12, "nonzero after the end")
    return f"{win}-{c['keep']}"


@finding(PID, "framing-last-complete-frame")
def framing_last_complete_frame():
    """framed_signal(keep_last_frames=False) drops the last complete frame
    when the frames end exactly with the signal (the repository's own test of
    lufs_integrated depends on it)."""
    F = dsp.tools.framed_signal(np.ones((20, 1)), 10, 5, False)
    if F.shape[1] == 2:
        fail("2 frames of 3 complete ones", "framing-last-complete-frame")
