"""Strategies for plain JSON cases and builders which turn them into data.

Heavy data is never drawn by Hypothesis: a case carries a seed and a kind, and
the builders make the arrays from them. Shrinking therefore works on lengths,
channel counts, kinds and parameters."""

from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

KINDS = ["noise", "sines", "impulse", "ramp", "decay", "sparse", "dc"]
RICH = ["noise", "sines", "decay"]
FS = [8000, 16000, 22050, 44100, 48000]


def seeds():
    return st.integers(0, 2**20)


def sig(min_n=1, max_n=400, max_ch=4, min_ch=1, kinds=KINDS, fs=FS, amp=None):
    """Specification of a signal."""
    return st.fixed_dictionaries(
        dict(
            kind=st.sampled_from(kinds),
            n=st.integers(min_n, max_n),
            ch=st.integers(min_ch, max_ch),
            fs=st.sampled_from(fs),
            seed=seeds(),
            amp=amp if amp is not None else st.sampled_from([1.0, 0.1, 0.9, 2.5]),
        )
    )


def data(s):
    """(n, ch) float array of a specification."""
    r = np.random.default_rng(s["seed"])
    n, ch = s["n"], s["ch"]
    k = s["kind"]
    t = np.arange(n)[:, None]
    if k == "noise":
        x = r.standard_normal((n, ch)) * 0.3
    elif k == "sines":
        x = np.zeros((n, ch))
        for _ in range(3):
            x += r.uniform(0.1, 0.4, ch) * np.sin(
                2 * np.pi * r.uniform(0.01, 0.45, ch) * t + r.uniform(0, 6, ch)
            )
    elif k == "impulse":
        x = np.zeros((n, ch))
        for c in range(ch):
            x[r.integers(0, n), c] = r.uniform(0.2, 1.0) * r.choice([-1, 1])
    elif k == "ramp":
        x = (t + 1.0) / n * r.uniform(0.2, 1, ch) * r.choice([-1, 1], ch)
    elif k == "decay":
        x = (
            r.standard_normal((n, ch))
            * 0.3
            * np.exp(-t / max(n, 2) * r.uniform(2, 8, ch))
        )
    elif k == "sparse":
        x = r.standard_normal((n, ch)) * (r.random((n, ch)) < 0.1)
        x[r.integers(0, n), :] += 0.5
    elif k == "dc":
        x = np.ones((n, ch)) * r.uniform(0.1, 1, ch)
    else:
        raise ValueError(k)
    return np.ascontiguousarray(x * s["amp"])


def imag(s):
    """An imaginary part for the same specification."""
    r = np.random.default_rng(s["seed"] + 77)
    return r.standard_normal((s["n"], s["ch"])) * 0.2


def mk(s, cls=None, constrain=False, cache=False):
    import dsptoolbox as dsp

    cls = cls or dsp.Signal
    return cls(
        None, data(s), s["fs"], constrain_amplitude=constrain, activate_cache=cache
    )


def mkc(s, complex_=False, cls=None):
    o = mk(s, cls)
    if complex_:
        o.time_data_imaginary = imag(s)
    return o


def full(o):
    """Complex time data of a signal."""
    x = np.array(o.time_data, dtype=float)
    return x + 1j * o.time_data_imaginary if o.is_complex_signal else x


def floats(lo, hi, digits=3):
    """Rounded floats shrink to readable numbers."""
    return st.floats(lo, hi, allow_nan=False).map(lambda v: round(v, digits))


def logfloats(lo, hi):
    return st.floats(np.log(lo), np.log(hi)).map(
        lambda v: float(min(max(float(f"{np.exp(v):.5g}"), lo), hi))
    )


def fd(**kw):
    return st.fixed_dictionaries(kw)


def stable_sos(seed, n_sections, rmax=0.97):
    """Random stable second-order sections with complex or real roots."""
    r = np.random.default_rng(seed)
    sos = np.zeros((n_sections, 6))
    for i in range(n_sections):
        rad, ang = r.uniform(0.1, rmax), r.uniform(0.02, np.pi - 0.02)
        a = (
            [1, -2 * rad * np.cos(ang), rad**2]
            if r.random() < 0.7
            else np.poly(r.uniform(-rmax, rmax, 2))
        )
        rz, az = r.uniform(0.1, 1.3), r.uniform(0.02, np.pi - 0.02)
        b = (
            [1, -2 * rz * np.cos(az), rz**2]
            if r.random() < 0.7
            else np.poly(r.uniform(-1.3, 1.3, 2))
        )
        sos[i] = np.r_[np.asarray(b) * r.uniform(0.3, 1.2), a]
    return sos


def freqz(b, a, f, fs):
    z = np.exp(-2j * np.pi * np.asarray(f, float) / fs)
    return np.polyval(np.asarray(b)[::-1], z) / np.polyval(np.asarray(a)[::-1], z)


def sosfreq(sos, f, fs):
    h = np.ones(len(f), complex)
    for s in np.atleast_2d(sos):
        h = h * freqz(s[:3], s[3:], f, fs)
    return h
