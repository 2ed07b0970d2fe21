"""C24: effects do what their parameters say.

Oracles: static compression curves and their exponential time response on
signals of piecewise constant magnitude, pointwise distortion functions, direct
sums of delayed voices, recursions of the feedback delay, modulator wave forms
as functions of the phase, and the expected power left by spectral
subtraction."""

import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.signal import get_window

import dsptoolbox as dsp
from vt import core, gen
from vt.core import close, raises, same, sub

PID = "C24"
FX = dsp.effects
DT = FX.DistortionType
warnings.simplefilter("ignore")


def check(cond, msg, *extra):
    core.check(cond, f"{msg} {extra}" if extra else msg)


def apply(effect, signal):
    """Apply without printing; the input must stay as it was."""
    before = signal.time_data.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        out = effect.apply(signal)
    same(signal.time_data, before, "input signal unchanged")
    check(type(out) is type(signal), "type")
    check(out.sampling_rate_hz == signal.sampling_rate_hz, "rate")
    check(out.number_of_channels == signal.number_of_channels, "channels")
    check(np.all(np.isfinite(out.time_data)), "finite")
    return out


def from_array(x, fs):
    return dsp.Signal.from_time_data(x, fs, False)


def db(v):
    return 10 ** (v / 20)


# ---------------------------------------------------------------- compressor
def curve(x, T, R, W, downward):
    """Static curve in dB (Giannoulis et al.)."""
    if downward:
        if 2 * (x - T) < -W:
            return x
        if 2 * abs(x - T) <= W and W > 0:
            return x + (1 / R - 1) * (x - T + W / 2) ** 2 / (2 * W)
        return T + (x - T) / R
    if 2 * (x - T) > W:
        return x
    if 2 * abs(x - T) <= W and W > 0:
        return x - (1 / R - 1) * (x - T - W / 2) ** 2 / (2 * W)
    return T + (x - T) / R


compression = dict(
    T=gen.floats(-50, -1, 2),
    R=st.one_of(st.just(1.0), gen.floats(1, 8, 2), st.just(50)),
    W=st.one_of(st.just(0), gen.floats(0.5, 20, 2)),
    down=st.booleans(),
    mix=st.one_of(st.just(100), gen.floats(5, 100, 1)),
    pre=st.one_of(st.just(0), gen.floats(-12, 12, 2)),
    post=st.one_of(st.just(0), gen.floats(-12, 12, 2)),
)


def compressor(c, attack=0.0, release=0.0, relative=False, makeup=False):
    e = FX.Compressor(c["T"], attack, release, c["R"], relative)
    e.set_advanced_parameters(
        c["W"], c["pre"], c["post"], c["mix"], makeup, c["down"]
    )
    return e


@sub(
    PID,
    gen.fd(
        levels=st.lists(gen.floats(-70, 0, 2), min_size=1, max_size=3),
        at=st.sampled_from([None, "T", "low", "high"]),
        n=st.integers(4, 40),
        fs=st.sampled_from([8000, 44100]),
        seed=gen.seeds(),
        **compression,
    ),
    quick=200,
    thorough=8000,
)
def static_curve(c):
    """Constant magnitudes with random signs, no attack and release."""
    r = np.random.default_rng(c["seed"])
    levels = list(c["levels"])
    if c["at"] is not None:
        # Exactly at the threshold or at the ends of the knee
        levels[0] = c["T"] + dict(T=0, low=-c["W"] / 2, high=c["W"] / 2)[c["at"]] - c["pre"]
    signs = r.choice([-1.0, 1.0], (c["n"], len(levels)))
    x = signs * db(np.array(levels))
    s = from_array(x, c["fs"])
    m = c["mix"] / 100
    static = np.array(
        [curve(v + c["pre"], c["T"], c["R"], c["W"], c["down"]) - v - c["pre"] for v in levels]
    )
    g = db(c["pre"]) * (m * db(static) + 1 - m)
    out = apply(compressor(c), s).time_data
    close(out, x * g * db(c["post"]), "static curve and gains", rtol=1e-7)
    # RMS is kept by the make-up gain, before the post gain
    out = apply(compressor(c, makeup=True), s).time_data
    close(out, x * db(c["pre"] + c["post"]), "make-up gain", rtol=1e-7)
    # Threshold relative to the peak: 0 dBFS for constant magnitudes
    out = apply(compressor(c, relative=True), s).time_data
    g = m * db(curve(0.0, c["T"], c["R"], c["W"], c["down"])) + 1 - m
    close(out, x * g * db(c["pre"] + c["post"]), "relative to the peak", rtol=1e-7)
    return c["at"] or ("knee" if c["W"] else "hard")


@sub(
    PID,
    gen.fd(
        low=gen.floats(-60, -8, 2),
        step=gen.floats(6, 30, 2),
        attack=gen.floats(0.5, 40, 2),
        release=gen.floats(0.5, 40, 2),
        swap=st.booleans(),
        fs=st.sampled_from([2000, 8000]),
        seed=gen.seeds(),
        **compression,
    ),
    quick=80,
    thorough=2500,
)
def attack_release(c):
    """95 % of a change of the gain are reached after the times set."""
    fs, r = c["fs"], np.random.default_rng(c["seed"])
    n = [int(v * 1e-3 * fs) for v in (c["attack"], c["release"])]
    if min(n) < 1:
        return None
    seg = 6 * max(n)
    levels = [c["low"], c["low"] + c["step"], c["low"]]
    if c["swap"]:
        levels = [levels[1], levels[0], levels[1]]
    x = np.concatenate([db(v) * r.choice([-1.0, 1.0], seg) for v in levels])
    c = dict(c, pre=0, post=0, mix=100)
    out = apply(compressor(c, c["attack"], c["release"]), from_array(x[:, None], fs))
    g = out.time_data[:, 0] / x
    target = [db(curve(v, c["T"], c["R"], c["W"], c["down"]) - v) for v in levels]
    now, used = 1.0, set()
    for i, (v, goal) in enumerate(zip(levels, target)):
        away = abs(goal - 1) > abs(now - 1)
        t = np.arange(1, seg + 1) / (n[0] if away else n[1])
        want = goal + (now - goal) * 0.05**t
        close(g[i * seg : (i + 1) * seg], want, "time response", rtol=1e-6)
        if abs(goal - now) > 1e-6:
            used.add("attack" if away else "release")
        now = want[-1]
    return "+".join(sorted(used)) or "flat"


@sub(
    PID,
    gen.fd(
        s=gen.sig(2, 200, 3, kinds=gen.KINDS),
        attack=st.one_of(st.just(0), gen.floats(0.1, 30, 2)),
        release=st.one_of(st.just(0), gen.floats(0.1, 50, 2)),
        gain=gen.floats(-30, 30, 1),
        silent=st.booleans(),
        **compression,
    ),
    quick=120,
    thorough=4000,
)
def compressor_signals(c):
    s = gen.mk(c["s"])
    x = s.time_data.copy()
    if c["silent"]:
        x[:, -1] = 0.0
        s.time_data = x
    plain = dict(c, pre=0, post=0, mix=100, down=True)
    e = compressor(plain, c["attack"], c["release"])
    y = apply(e, s).time_data
    with np.errstate(all="ignore"):
        top = 20 * np.log10(np.abs(x).max(axis=0))
    least = [db(curve(v, c["T"], c["R"], c["W"], True) - v) if v > -200 else 1 for v in top]
    check(np.all(np.abs(y) <= np.abs(x) * (1 + 1e-9)), "never louder")
    check(np.all(np.abs(y) >= np.abs(x) * np.array(least) * (1 - 1e-9)), "limit of the curve")
    check(np.all(x * y >= 0), "sign")
    # All settings: channels are independent, results repeat, gain scales
    for relative, makeup in ((False, False), (True, True), (True, False)):
        e = compressor(c, c["attack"], c["release"], relative, makeup)
        if not c["down"] and (c["silent"] or c["s"]["kind"] in ("sparse", "impulse")):
            # Upward compression of digital silence is unbounded
            continue
        y = apply(e, s).time_data
        same(apply(e, s).time_data, y, "deterministic")
        for k in range(x.shape[1]):
            one = apply(e, from_array(x[:, [k]], s.sampling_rate_hz)).time_data
            close(one[:, 0], y[:, k], "channels are independent", rtol=1e-9, atol=1e-15)
        if relative and not makeup:
            z = apply(e, from_array(x * db(c["gain"]), s.sampling_rate_hz)).time_data
            close(z, y * db(c["gain"]), "scales with the input", rtol=1e-5, atol=1e-12)
        if makeup:
            close(
                np.sqrt(np.mean(y**2, axis=0)),
                np.sqrt(np.mean(x**2, axis=0)) * db(c["pre"] + c["post"]),
                "rms kept",
                rtol=1e-9,
                atol=1e-15,
            )
        if c["silent"]:
            same(y[:, -1], np.zeros(len(y)), "silent channel")
    e = FX.Compressor()
    before = apply(e, s).time_data
    e.set_parameters()
    same(apply(e, s).time_data, before, "unset parameters stay")
    e.set_parameters(-30.0, ratio=4.0)
    want = FX.Compressor(-30.0, ratio=4.0)
    same(apply(e, s).time_data, apply(want, s).time_data, "set parameters")
    raises(lambda: FX.Compressor(ratio=0.9), "ratio below one")
    raises(lambda: FX.Compressor(attack_time_ms=-1), "negative attack")
    raises(lambda: e.set_advanced_parameters(mix_percent=101), "mix")
    return "silent" if c["silent"] else c["s"]["kind"]


# ---------------------------------------------------------------- distortion
def distort(kind, x, level, offset):
    g, o = db(level), 0.0 if offset is None else db(offset)
    u = x / np.abs(x).max()
    if kind == "Arctan":
        return 2 / np.pi * np.arctan(u * g + o)
    if kind == "HardClip":
        return np.minimum(np.maximum(u * g + o, -1), 1)
    if kind == "SoftClip":
        v = (u * 2 / 3 + o) * g
        return np.where(v >= 1, 2 / 3, np.where(v <= -1, -2 / 3, v - v**3 / 3))
    return x


@sub(
    PID,
    gen.fd(
        s=gen.sig(2, 200, 3),
        kinds=st.lists(
            st.tuples(
                st.sampled_from([m.name for m in DT]),
                gen.floats(-10, 50, 1),
                st.one_of(st.none(), gen.floats(-40, 0, 1)),
                gen.floats(1, 10, 1),
            ),
            min_size=1,
            max_size=4,
        ),
        mix=st.one_of(st.just(100.0), st.just(0.0), gen.floats(0, 100, 1)),
        post=st.one_of(st.just(0), gen.floats(-12, 12, 2)),
        silent=st.booleans(),
    ),
    quick=200,
    thorough=8000,
)
def distortion(c):
    s = gen.mk(c["s"])
    x = s.time_data.copy()
    ks = c["kinds"]
    off = [-np.inf if k[2] is None else k[2] for k in ks]
    if len(ks) == 1:
        k = ks[0]
        if c["mix"] == 100.0 and k[2] is None and c["s"]["seed"] % 2:
            e = FX.Distortion(k[1], c["post"], DT[k[0]])
        else:
            e = FX.Distortion()
            e.set_advanced_parameters(DT[k[0]], k[1], c["mix"], off[0], c["post"])
        w = [c["mix"] / 100]
        parts = ks + [("NoDistortion", 0.0, None, 0)]
        w.append(1 - w[0])
    else:
        total = sum(k[3] for k in ks)
        w = [k[3] / total for k in ks]
        e = FX.Distortion()
        e.set_advanced_parameters(
            [DT[k[0]] for k in ks],
            np.array([k[1] for k in ks]),
            np.array(w) * 100,
            np.array(off),
            c["post"],
        )
        parts = ks
    out = apply(e, s).time_data
    for k in range(x.shape[1]):
        peak = np.abs(x[:, k]).max()
        if peak == 0:
            if all(o == -np.inf for o in off):
                same(out[:, k], x[:, k], "silent channel")
            continue
        y = 0
        for p, weight in zip(parts, w):
            d = distort(p[0], x[:, k], p[1], p[2])
            if np.abs(d).max() > 0 and weight > 0:
                y = y + weight * d * peak / np.abs(d).max()
        level = np.abs(y).max()
        if level < 1e-6 * peak:
            return None
        close(out[:, k], y * peak / level * db(c["post"]), "distorted", rtol=1e-8)
        close(np.abs(out[:, k]).max(), peak * db(c["post"]), "peak level")
    if c["silent"] and all(o == -np.inf for o in off):
        z = x.copy()
        z[:, 0] = 0
        y = apply(e, from_array(z, s.sampling_rate_hz)).time_data
        same(y[:, 0], np.zeros(len(z)), "silence")
        close(y[:, 1:], out[:, 1:], "other channels")
    raises(lambda: e.set_advanced_parameters(DT.Arctan, 20, 101), "mix above 100")
    two, none = [DT.Arctan, DT.HardClip], [-np.inf, -np.inf]
    e.set_advanced_parameters(two, [3, 3], [40, 60], none)
    for bad in ([60, 60], [30, 60]):
        raises(lambda: e.set_advanced_parameters(two, [3, 3], bad, none), "sum of the mix")
    raises(lambda: e.set_advanced_parameters(two, [3, 3, 3], [40, 60], none), "levels")
    raises(lambda: e.set_advanced_parameters(two, [3, 3], [40, 60], none[:1]), "offsets")
    return "+".join(sorted({k[0] for k in ks}))


# ------------------------------------------------------------ modulation
def wave(kind, phase, smooth):
    """Wave form over the phase in periods."""
    w = 2 * np.pi * phase
    if kind == "harmonic":
        return np.sin(w)
    if smooth == 0:
        return {
            "square": lambda: np.sign(np.sin(w)),
            "sawtooth": lambda: 2 * (phase % 1) - 1,
            "triangle": lambda: 2 / np.pi * np.arcsin(np.sin(w)),
        }[kind]()
    return None


lfo = dict(
    wave=st.sampled_from(["harmonic", "sawtooth", "square", "triangle", "Harmonic"]),
    f=gen.logfloats(0.1, 40.0),
    fs=st.sampled_from([500, 1000, 8000]),
    smooth=st.one_of(st.just(0), gen.floats(0.5, 10, 1)),
)


@sub(
    PID,
    gen.fd(n=st.integers(1, 3000), m=st.integers(1, 3000), seed=gen.seeds(), **lfo),
    quick=150,
    thorough=6000,
)
def oscillators(c):
    kind = c["wave"].lower()
    o = FX.LFO(c["f"], c["wave"], smooth=c["smooth"])
    n, fs, f = c["n"], c["fs"], c["f"]
    x = o.get_waveform(fs, n)
    check(x.shape == (n,) and np.all(np.isfinite(x)), "shape")
    check(np.all(np.abs(x) <= 1 + 1e-5), "within [-1, 1]", np.abs(x).max())
    m = min(c["m"], n)
    close(o.get_waveform(fs, m), x[:m], "does not depend on the length", atol=1e-12)
    phase = f / fs * np.arange(n)
    want = wave(kind, phase, c["smooth"])
    safe = np.abs((2 * phase + 0.5) % 1 - 0.5) > 1e-9
    if want is not None:
        close(x[safe], want[safe], "wave form", atol=1e-8)
    one = o.get_waveform(fs)
    check(len(one) in (int(fs / f), int(fs / f + 1e-9)), "one period")
    if len(one) > 200:
        lim = 0.6 if kind != "sawtooth" or not c["smooth"] else 0.9
        check(np.abs(one).max() > lim, "amplitude", np.abs(one).max())
        check(abs(one.mean()) < 0.02, "no mean", one.mean())
        if kind == "square" and c["smooth"] == 0:
            check(np.abs(one[1:-1]).min() > 0, "square")
    if c["smooth"]:
        # Still the same period, smoothed
        hard = FX.LFO(c["f"], c["wave"]).get_waveform(fs, len(one))
        if kind in ("square", "triangle") and len(one) > 200:
            check(np.all(hard * one >= -1e-12), "same sign as without smoothing")
        if kind == "sawtooth" and len(one) > 200:
            k = np.fft.rfft(one)
            check(np.argmax(np.abs(k)) == 1, "same period")
    # Random phase: the same wave form with a shift
    r = FX.LFO(c["f"], c["wave"], True, c["smooth"])
    np.random.seed(c["seed"])
    a = r.get_waveform(fs, n)
    np.random.seed(c["seed"])
    same(r.get_waveform(fs, n), a, "seeded")
    check(np.all(np.abs(a) <= 1 + 1e-5), "within [-1, 1] with random phase")
    if kind == "harmonic" and n > 2:
        w = 2 * np.pi * f / fs
        close(a[2:] + a[:-2], 2 * np.cos(w) * a[1:-1], "recursion of a sine", atol=1e-9)
    # one period as a table; the best of all shifts fits
    table = FX.LFO(1.0, c["wave"], smooth=c["smooth"]).get_waveform(2000, 2000)
    fit = min(np.mean(np.abs(table[(2000 * (phase + q)).astype(int) % 2000] - a)) for q in np.arange(0, 1, 5e-3))
    check(fit < 0.08 + 2 / n, "wave form with random phase", fit)
    starts = np.array([r.get_waveform(fs, 1)[0] for _ in range(60)])
    check(starts.max() > 0.3 and starts.min() < -0.3, "any phase", starts.min(), starts.max())
    same(FX.LFO(-c["f"], c["wave"], smooth=c["smooth"]).get_waveform(fs, n), x, "frequency without sign")
    r.set_parameters(random_phase=False)
    same(r.get_waveform(fs, n), x, "set parameters")
    raises(lambda: FX.LFO(1.0, "circle"), "unknown wave form")
    return kind + (" smooth" if c["smooth"] else "")


NOTES = dict(quarter=1, half=2, whole=4, eighth=1 / 2, sixteenth=1 / 4, quintuplet=1 / 5)
NOTES["32th"] = 1 / 8


@sub(
    PID,
    gen.fd(
        note=st.sampled_from(sorted(NOTES)),
        three=st.booleans(),
        dotted=st.booleans(),
        bpm=st.one_of(st.integers(20, 300), gen.floats(20, 300)),
    ),
    quick=120,
    thorough=2000,
)
def rhythms(c):
    """Beats per minute give the period of a beat, i.e. a quarter note."""
    note, beats = c["note"], NOTES[c["note"]]
    if c["three"]:
        note, beats = note + " 3", beats * 2 / 3
    if c["dotted"]:
        note, beats = note + " dotted", beats * 1.5
    period = beats * 60 / c["bpm"]
    close(FX.get_time_period_from_musical_rhythm(note, c["bpm"]), period, "period")
    close(FX.get_frequency_from_musical_rhythm(note, c["bpm"]), 1 / period, "frequency")
    a = FX.LFO((note, c["bpm"])).get_waveform(1000, 50)
    close(a, np.sin(2 * np.pi / period / 1000 * np.arange(50)), "oscillator", atol=1e-9)
    raises(lambda: FX.get_frequency_from_musical_rhythm("long", 60), "unknown note")
    return c["note"]


@sub(
    PID,
    gen.fd(
        s=gen.sig(2, 400, 3),
        depth=gen.floats(0.05, 1.0, 2),
        array=st.sampled_from([None, 0.3, 1.0, 2.0]),
        twod=st.booleans(),
        again=gen.floats(0.05, 1.0, 2),
        **lfo,
    ),
    quick=120,
    thorough=5000,
)
def tremolo(c):
    s = gen.mk(c["s"])
    x = s.time_data.copy()
    n, fs = len(x), s.sampling_rate_hz
    if c["array"] is None:
        o = FX.LFO(c["f"], c["wave"], smooth=c["smooth"])
        m = o.get_waveform(fs, n)
    else:
        size = max(2, int(n * c["array"]))
        o = np.random.default_rng(c["s"]["seed"]).uniform(-3, 3, size)
        m = np.zeros(n)
        m[:size] = o[:n]
        if c["twod"]:
            o = o[:, None]
    e = FX.Tremolo(c["depth"], o)
    out = apply(e, s).time_data
    close(out, x * np.abs(1 + c["depth"] * m)[:, None], "modulated", rtol=1e-10)
    e.set_parameters(depth=c["again"])
    out = apply(e, s).time_data
    close(out, x * np.abs(1 + c["again"] * m)[:, None], "new depth", rtol=1e-10)
    e.set_parameters(modulator=FX.LFO(3.0))
    m = np.sin(2 * np.pi * 3 / fs * np.arange(n))
    out = apply(e, s).time_data
    close(out, x * np.abs(1 + c["again"] * m)[:, None], "new modulator", rtol=1e-9)
    m = np.sin(2 * np.pi / fs * np.arange(n))
    out = apply(FX.Tremolo(), s).time_data
    close(out, x * (1 + 0.5 * m)[:, None], "default", rtol=1e-9)
    raises(lambda: FX.Tremolo(1.1), "depth")
    raises(lambda: FX.Tremolo(0.5, "fast"), "modulator")
    return "lfo" if c["array"] is None else "array"


@sub(
    PID,
    gen.fd(
        s=gen.sig(2, 500, 3),
        voices=st.integers(1, 4),
        base=st.lists(gen.floats(0.2, 40, 2), min_size=4, max_size=4),
        depth=st.lists(gen.floats(0, 10, 2), min_size=4, max_size=4),
        many=st.sampled_from(["all", "base", "depth", "lfo", "array", "later"]),
        f=gen.floats(0.2, 20, 2),
        mix=gen.floats(1, 100, 1),
        random=st.booleans(),
        silent=st.booleans(),
        length=st.sampled_from([0.5, 1.0, 1.5]),
    ),
    quick=150,
    thorough=6000,
)
def chorus(c):
    """Clean signal plus voices with modulated delays, at the same peak."""
    s = gen.mk(c["s"])
    x = s.time_data.copy()
    if c["silent"]:
        x[:, 0] = 0.0
        s.time_data = x
    n, fs, v = len(x), s.sampling_rate_hz, c["voices"]
    many = c["many"]
    base = c["base"][:v] if many in ("all", "base", "later") else c["base"][:1] * v
    depth = c["depth"][:v] if many in ("all", "depth") else c["depth"][:1] * v
    if many == "array":
        r = np.random.default_rng(c["s"]["seed"])
        size = max(2, int(c["length"] * n))
        given = r.uniform(0.0, 1.5e3 * n / fs, (size, v))
        delays = np.zeros((n, v))
        delays[:size] = given[:n]
        single = v == 1 and c["random"]
        e = FX.Chorus(5, 15, given[:, 0] if single else given, c["mix"])
        check(e.number_of_voices == v, "voices of the array")
        if c["silent"]:
            # Unused with arrays, but they may be set
            e.set_parameters(depths_ms=depth[0], mix_percent=c["mix"])
            check(e.number_of_voices == v, "voices of the array are kept")
    else:
        fr = [c["f"] * (k + 1) for k in range(v)] if many == "lfo" else [c["f"]] * v
        osc = [FX.LFO(q, random_phase=c["random"]) for q in fr]
        args = [
            depth if many in ("all", "depth") else depth[0],
            base if many in ("all", "base") else base[0],
            osc if many == "lfo" else osc[0],
        ]
        if many == "later":
            e = FX.Chorus(depth[0], 15, osc[0], c["mix"])
            e.set_parameters(base_delays_ms=np.array(base))
        else:
            e = FX.Chorus(*args, c["mix"])
        if many == "lfo" or many == "depth" or many == "all":
            if v > 1:
                check(e.number_of_voices == v, "number of voices")
        v = e.number_of_voices
        np.random.seed(5)
        delays = np.array(
            [o.get_waveform(fs, n) * d + b for o, d, b in zip(osc[:v], depth, base)]
        ).T
    ticks = delays * 1e-3 * fs
    if np.any(np.abs(ticks % 1 - 0.5) < 1e-9):
        return None
    ticks = np.round(ticks).astype(int)
    m = c["mix"] / 100
    want = x.copy()
    for k in range(ticks.shape[1]):
        at = np.arange(n) - ticks[:, k]
        ok = (at >= 0) & (at < n)
        want[ok] += m * x[at[ok]]
    np.random.seed(5)
    out = apply(e, s).time_data
    check(len(out) == n, "length kept")
    for k in range(x.shape[1]):
        peak, now = np.abs(x[:, k]).max(), np.abs(want[:, k]).max()
        if now < 1e-6 * peak:
            return None
        w = want[:, k] * (peak / now if now else 1.0)
        close(out[:, k], w, "voices", rtol=1e-9, atol=1e-12)
    raises(lambda: FX.Chorus(base_delays_ms=0), "no delay")
    raises(lambda: FX.Chorus(base_delays_ms=[1, 2], depths_ms=[1, 2, 3]), "voices differ")
    raises(lambda: FX.Chorus(mix_percent=0), "mix")
    return many


# -------------------------------------------------------------------- delay
@sub(
    PID,
    gen.fd(
        s=gen.sig(2, 300, 3),
        delay=gen.floats(0.2, 30, 2),
        feedback=st.one_of(st.just(0.0), gen.floats(0.01, 0.95, 2)),
        sat=st.sampled_from([None, "digital", "arctan", "Arctan", "tanh"]),
        silent=st.booleans(),
    ),
    quick=120,
    thorough=5000,
)
def delay(c):
    """Feedback recursion with the delay line's saturation."""
    s = gen.mk(c["s"])
    x = s.time_data.copy()
    if c["silent"]:
        x[:, -1] = 0
        s.time_data = x
    fs = s.sampling_rate_hz
    d = c["delay"] * 1e-3 * fs
    if abs(d % 1 - 0.5) < 1e-9 or round(d) < 1:
        return None
    d = round(d)
    e = FX.DigitalDelay(c["delay"], c["feedback"])
    f = lambda v: v
    if c["sat"] == "tanh":
        e.set_advanced_parameters(np.tanh)
        f = np.tanh
    elif c["sat"] is not None:
        e.set_advanced_parameters(c["sat"])
        if c["sat"].lower() == "arctan":
            f = lambda v: 0.5 * np.arctan(2 * v)
    out = apply(e, s).time_data
    check(len(out) > len(x), "longer than the input")
    if c["feedback"] >= 0.07:
        check(len(out) >= len(x) + 2 * d, "room for repetitions", len(out), len(x), d)
    y = np.zeros_like(out)
    y[: len(x)] = x
    for i in range(d, len(y)):
        y[i] += c["feedback"] * f(y[i - d])
    for k in range(x.shape[1]):
        peak, now = np.abs(x[:, k]).max(), np.abs(y[:, k]).max()
        close(out[:, k], y[:, k] * (peak / now if now else 1), "recursion", rtol=1e-9, atol=1e-12)
    e.set_parameters(feedback=0.25)
    once = apply(e, s).time_data
    fresh = FX.DigitalDelay(c["delay"], 0.25)
    if c["sat"] is not None:
        fresh.set_advanced_parameters(np.tanh if c["sat"] == "tanh" else c["sat"])
    same(once, apply(fresh, s).time_data, "set feedback")
    raises(lambda: FX.DigitalDelay(0), "no delay")
    raises(lambda: FX.DigitalDelay(10, -0.1), "negative feedback")
    raises(lambda: FX.DigitalDelay(10, 1.0), "unstable feedback")
    return c["sat"] or "none"


# ------------------------------------------------------ spectral subtraction
WIN = ["Hann", "Hamming", "Blackman", "Boxcar"]


def subtractor(adaptive, thr, block, c, spectrum=False):
    e = FX.SpectralSubtractor(adaptive, thr, block, spectrum)
    e.set_advanced_parameters(
        c["overlap"],
        dsp.Window[c["win"]],
        c["forget"],
        c["factor"],
        c["exponent"],
    )
    return e


@sub(
    PID,
    gen.fd(
        s=gen.sig(600, 3000, 3, kinds=["noise", "sines", "dc", "decay"]),
        block=st.sampled_from([0.004, 0.01, 0.03]),
        overlap=st.sampled_from([50, 75]),
        win=st.sampled_from(["Hann", "Hamming"]),
        forget=gen.floats(0.1, 1, 2),
        factor=gen.floats(0.2, 6, 2),
        exponent=gen.floats(0.5, 3, 2),
        how=st.sampled_from(["above", "forgets", "tiny", "huge", "silence"]),
        spec=st.sampled_from([16, 32, 64]),
    ),
    quick=100,
    thorough=3000,
)
def subtraction_limits(c):
    """Nothing to subtract leaves signals alone, everything leaves silence."""
    s = gen.mk(c["s"])
    x = s.time_data.copy()
    n, how = len(x), c["how"]
    if how == "silence":
        s.time_data = np.zeros_like(x)
        for ad in (True, False):
            y = apply(subtractor(ad, -40, c["block"], c), s).time_data
            same(y, np.zeros_like(x), "silence stays silent")
        return how
    if how == "above":
        # No frame is below the threshold
        e = subtractor(True, -300, c["block"], c)
        if c["s"]["kind"] == "dc":
            return None
    elif how == "forgets":
        # Noise is never updated from its start at zero
        e = subtractor(True, -1, c["block"], dict(c, forget=1.0))
    else:
        v = 1e-40 if how == "tiny" else 1e12
        e = subtractor(c["s"]["seed"] % 2 == 0, -40, c["block"], c, np.full(c["spec"] + 1, v))
    y = apply(e, s).time_data
    check(y.shape == x.shape, "length")
    if how == "huge":
        same(y, np.zeros_like(x), "nothing left")
        return how
    close(y, x, "signal above the noise is kept", atol=1e-6 * np.abs(x).max())
    return how


@sub(
    PID,
    gen.fd(
        s=gen.sig(200, 1500, 3, kinds=["noise", "sines", "decay"]),
        fs=st.sampled_from([4000, 8000]),
        block=st.sampled_from([0.002, 0.004, 0.015]),
        overlap=st.sampled_from([0, 50, 75]),
        win=st.sampled_from(["Boxcar", "Hann", "Hamming"]),
        forget=gen.floats(0.1, 0.99, 2),
        factor=gen.floats(0.1, 3, 2),
        exponent=gen.floats(0.5, 3, 2),
        spec=st.sampled_from([None, 9, 17, 33]),
        mode=st.sampled_from(["adaptive", "spectrum", "detector"]),
        at=st.integers(5, 90),
        level=gen.floats(-40, -6, 1),
        attack=gen.floats(0, 3, 2),
        release=gen.floats(0, 10, 2),
        seed=gen.seeds(),
    ),
    quick=120,
    thorough=4000,
)
def subtraction_model(c):
    """Frame by frame: magnitudes to the power of the exponent are reduced by
    those of the noise times the factor and kept above zero, at the peak level
    of the input. The noise is the spectrum given, that of the parts without
    activity or the running mean of the frames below the threshold."""
    r = np.random.default_rng(c["seed"])
    fs, mode = c["fs"], c["mode"]
    x = gen.mk(c["s"]).time_data.copy()
    n, ch = x.shape
    # Parts of a lower level
    for k in range(ch):
        a = r.integers(0, n // 2)
        x[a : a + n // 2, k] *= db(c["level"])
    s = from_array(x, fs)
    w = dsp.Window[c["win"]]
    if c["win"] != "Boxcar" and c["overlap"] == 0:
        return None
    given = False
    if mode == "spectrum":
        bins = c["spec"] or 13
        W = 2 * (bins - 1)
        given = r.exponential(size=bins) * np.mean(x**2) * W + 1e-12
        if c["seed"] % 2:
            given = given[None]
        thr = -40.0
    else:
        W = 2 ** int(np.ceil(np.log2(c["block"] * fs)))
    if n < 3 * W:
        return None
    step = W - W * c["overlap"] // 100
    window = np.ones(W)
    if c["win"] != "Boxcar":
        window = get_window(c["win"].lower(), W)
    window = np.maximum(window, 1e-6)
    starts = np.arange(0, n + W, step)
    z = np.concatenate([np.zeros((W, ch)), x, np.zeros((2 * W, ch))])
    frames = np.array([z[a : a + W] for a in starts])
    if mode == "adaptive":
        with np.errstate(divide="ignore"):
            power = 10 * np.log10(np.mean(frames**2, axis=1))
            spread = 10 * np.log10(np.var(frames, axis=1))
        some = power[np.isfinite(power)]
        if not len(some):
            return None
        thr = round(float(np.percentile(some, c["at"])), 2)
        if np.any((power < thr) != (spread < thr)) or np.abs(spread - thr).min() < 1e-6:
            return None
    elif mode == "detector":
        thr = -20.0
    e = FX.SpectralSubtractor(mode == "adaptive", thr, c["block"], given)
    e.set_advanced_parameters(
        c["overlap"], w, c["forget"], c["factor"], c["exponent"], c["attack"], c["release"]
    )
    y = np.zeros_like(z)
    norm = np.zeros(len(z))
    for a in starts:
        norm[a : a + W] += window**2
    kept = 0.0
    for k in range(ch):
        if mode == "detector":
            noise = dsp.activity_detector(
                s,
                thr,
                channel=k,
                attack_time_ms=c["attack"],
                release_time_ms=c["release"],
            )[1]["noise"]
            if len(noise) < 2 * W:
                return None
            noise.set_spectrum_parameters(
                dsp.SpectrumMethod.WelchPeriodogram,
                window_length_samples=W,
                overlap_percent=c["overlap"],
                window_type=w,
                scaling=dsp.SpectrumScaling.FFTBackward,
            )
            floor = np.abs(noise.get_spectrum()[1]).squeeze()
        elif mode == "spectrum":
            floor = np.sqrt(given.squeeze())
        else:
            floor = np.zeros(W // 2 + 1)
        for a, f, i in zip(starts, frames[:, :, k], range(len(starts))):
            spec = np.fft.rfft(f * window)
            mag = np.abs(spec)
            if mode == "adaptive" and spread[i, k] < thr:
                floor = c["forget"] * floor + (1 - c["forget"]) * mag
            left = np.maximum(mag ** c["exponent"] - c["factor"] * floor ** c["exponent"], 0.0)
            left = left ** (1 / c["exponent"])
            kept += np.sum(left**2)
            y[a : a + W, k] += np.fft.irfft(left * np.exp(1j * np.angle(spec))) * window
    y = (y / np.where(norm > 0, norm, 1.0)[:, None])[W : W + n]
    out = apply(e, s).time_data
    if kept < 1e-4 * np.sum(np.abs(np.fft.rfft(frames, axis=1)) ** 2):
        return None
    for k in range(ch):
        top, now = np.abs(x[:, k]).max(), np.abs(y[:, k]).max()
        if now < 1e-3 * top:
            continue
        close(out[:, k], y[:, k] * top / now, "model", atol=1e-6 * top)
    return mode


@sub(
    PID,
    gen.fd(
        fs=st.sampled_from([4000, 8000]),
        level=gen.floats(-70, -45, 1),
        overlap=st.sampled_from([50, 75]),
        win=st.sampled_from(["Hann", "Hamming"]),
        factor=gen.floats(0.3, 2.5, 2),
        exponent=st.sampled_from([1, 2, 3]),
        forget=gen.floats(0.85, 0.97, 2),
        ch=st.integers(1, 2),
        adaptive=st.booleans(),
        seed=gen.seeds(),
    ),
    quick=40,
    thorough=600,
)
def subtraction_noise(c):
    """Expected reduction of white noise next to an untouched loud tone."""
    r = np.random.default_rng(c["seed"])
    fs, n = c["fs"], 24000
    t = np.arange(n)
    x = db(c["level"]) * r.standard_normal((n, c["ch"]))
    tone = slice(10000, 12000)
    x[tone] += np.sin(2 * np.pi * r.uniform(0.05, 0.4, c["ch"]) * t[tone, None])
    thr = -30 if c["adaptive"] else c["level"] + 25
    e = subtractor(c["adaptive"], float(thr), 256 / fs, c)
    y = apply(e, from_array(x, fs)).time_data
    check(y.shape == x.shape, "length")
    mid = slice(tone.start + 300, tone.stop - 300)
    close(y[mid], x[mid], "loud parts are kept", atol=0.15)
    # Expectation over exponentially distributed powers of the bins
    p = r.exponential(size=200_000)
    a = c["exponent"] / 2
    floor = c["factor"] * (
        np.mean(np.sqrt(p)) ** c["exponent"] if c["adaptive"] else 1.0
    )
    left = 10 * np.log10(np.mean(np.maximum(p**a - floor, 0) ** (1 / a)))
    if left < -13:
        return None
    noise = slice(14000, 23000)
    for k in range(c["ch"]):
        got = 20 * np.log10(np.std(y[noise, k]) / np.std(x[noise, k]))
        check(left * 1.5 - 2.5 < got < left * 0.85 + 0.5, "reduction", got, left)
    return "adaptive" if c["adaptive"] else "static"


@sub(
    PID,
    gen.fd(
        s=gen.sig(60, 400, 2, kinds=["noise", "sines"]),
        effect=st.integers(0, 5),
        bands=st.integers(1, 3),
        impulse=st.booleans(),
    ),
    quick=60,
    thorough=2000,
)
def multiband(c):
    """Bands are processed like single signals; impulse responses keep their
    type; other inputs are refused."""
    cls = dsp.ImpulseResponse if c["impulse"] else dsp.Signal
    sigs = [
        gen.mk(dict(c["s"], seed=c["s"]["seed"] + k), cls) for k in range(c["bands"])
    ]
    e = [
        lambda: FX.Compressor(-20, 1, 5, 4),
        lambda: FX.Distortion(15),
        lambda: FX.Tremolo(0.7),
        lambda: FX.Chorus(2, 5, FX.LFO(3.0)),
        lambda: FX.DigitalDelay(3.0, 0.4),
        lambda: FX.SpectralSubtractor(True, -20, 0.004),
    ][c["effect"]]
    before = [s.time_data.copy() for s in sigs]
    m = dsp.MultiBandSignal(sigs, same_sampling_rate=True)
    with contextlib.redirect_stdout(io.StringIO()):
        out = e().apply(m)
    check(type(out) is dsp.MultiBandSignal and out is not m, "multiband result")
    check(out.number_of_bands == c["bands"], "bands")
    one = e()
    for k, s in enumerate(sigs):
        same(m.bands[k].time_data, before[k], "input bands unchanged")
        alone = apply(one, s)
        check(type(out.bands[k]) is type(s), "type of the band")
        close(out.bands[k].time_data, alone.time_data, "band", rtol=1e-12, atol=1e-15)
    raises(lambda: e().apply(before[0]), "array as input")
    return type(one).__name__
