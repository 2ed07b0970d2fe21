"""Comparable descriptions of the package's objects (public state + behaviour).

`state(o)` is a nested structure of plain values and array copies. It never
touches the object itself beyond reading its public attributes; everything that
must be computed is computed on a deep copy."""

from copy import deepcopy
from enum import Enum

import numpy as np

import dsptoolbox as dsp

ZPK, SOS, BA = (dsp.FilterCoefficientsType.Zpk, dsp.FilterCoefficientsType.Sos,
                dsp.FilterCoefficientsType.Ba)


def arr(x):
    return None if x is None else np.array(x, copy=True)


def spectrum_of(o):
    """Spectrum of a copy (shows the stored analysis settings)."""
    c = deepcopy(o)
    try:
        f, sp = c.get_spectrum()
        return arr(f), arr(sp)
    except Exception as e:  # settings that do not fit the samples
        return type(e).__name__


def spectrogram_of(o):
    c = deepcopy(o)
    try:
        return [arr(v) for v in c.get_spectrogram()]
    except Exception as e:
        return type(e).__name__


def state(o, deep=True):
    """deep: also the results that the settings of a signal lead to."""
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes, Enum)):
        return o
    if isinstance(o, np.ndarray):
        return arr(o)
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [state(v, deep) for v in o]
    if isinstance(o, dict):
        return {str(k): state(v, deep) for k, v in o.items()}
    if isinstance(o, dsp.Signal):
        d = dict(
            kind=type(o).__name__, x=arr(o.time_data), im=arr(o.time_data_imaginary),
            fs=o.sampling_rate_hz, limit=o.constrain_amplitude, cal=o.calibrated_signal,
            factor=o.amplitude_scale_factor, cache=o.activate_cache,
            scaling=o.spectrum_scaling, method=o.spectrum_method, smooth=o.spectrum_smoothing,
            meta=state(o.metadata), window=arr(getattr(o, "window", None)))
        if deep:
            d["sp"] = spectrum_of(o)
            d["stft"] = spectrogram_of(o)
        return d
    if isinstance(o, dsp.MultiBandSignal):
        return dict(kind="mb", bands=[state(b, deep) for b in o.bands],
                    fs=state(o.sampling_rate_hz), same=o.same_sampling_rate)
    if isinstance(o, dsp.Spectrum):
        d = dict(kind="spectrum", f=arr(o.frequency_vector_hz), x=arr(o.spectral_data),
                 coh=arr(o.coherence) if o.has_coherence else None, mag=o.is_magnitude,
                 type=state(o.spectrum_type))
        if deep and o.number_frequency_bins > 3:
            f = o.frequency_vector_hz
            q = np.linspace(f[1], f[-2], 7)
            try:
                d["int"] = arr(deepcopy(o).get_interpolated_spectrum(
                    q, dsp.SpectrumType.Magnitude))
            except Exception as e:
                d["int"] = type(e).__name__
        return d
    if isinstance(o, dsp.Filter):
        d = dict(kind="filter", fs=o.sampling_rate_hz, iir=o.is_iir, sos=None, zpk=None,
                 warn=o.warning_if_complex, order=o.order,
                 zi=[arr(z) for z in getattr(o, "zi", None) or []])
        if o.has_sos:
            d["sos"] = arr(o.sos)
        else:
            d["ba"] = [arr(v) for v in o.ba]
        if o.has_zpk:
            d["zpk"] = [arr(v) for v in o.zpk]
        return d
    if isinstance(o, dsp.FilterBank):
        return dict(kind="bank", fs=state(o.sampling_rate_hz), same=o.same_sampling_rate,
                    filters=[state(f) for f in o.filters])
    if isinstance(o, dsp.CalibrationData):
        return dict(kind="calibration", s=state(o.calibration_signal, deep),
                    spl=state(o.calibration_spl_db), snr=o.high_snr)
    if isinstance(o, np.random.Generator):
        return "generator"
    return rest(o, deep)


def rest(o, deep):
    """Any other object: its public attributes and properties."""
    d = {"kind": type(o).__name__}
    if callable(o):
        return d
    names = set(vars(o)) if hasattr(o, "__dict__") else set()
    names |= {k for k in dir(type(o)) if isinstance(getattr(type(o), k, None), property)}
    for k in sorted(n for n in names if not n.startswith("_")):
        try:
            v = getattr(o, k)
        except Exception:
            continue
        d[k] = "callable" if callable(v) else state(v, deep)
    return d


def differ(a, b, path=""):
    """Path of the first difference or None."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: array or not"
        if a.shape != b.shape or a.dtype != b.dtype:
            return f"{path}: {a.shape} {a.dtype} / {b.shape} {b.dtype}"
        if not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
            return f"{path}: values"
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b:
        return None
    if type(a) is not type(b):
        return f"{path}: {type(a).__name__} / {type(b).__name__}"
    if isinstance(a, dict):
        if a.keys() != b.keys():
            return f"{path}: keys {sorted(set(a) ^ set(b))}"
        for k in a:
            r = differ(a[k], b[k], f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} / {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = differ(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(a, float) and a != a and b != b:
        return None
    return None if a == b else f"{path}: {a!r} / {b!r}"


def arrays(o, seen=None):
    """All numpy arrays held by an object (for shared-memory questions)."""
    seen = set() if seen is None else seen
    if id(o) in seen:
        return []
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        return [o]
    if isinstance(o, (list, tuple, set)):
        return [a for v in o for a in arrays(v, seen)]
    if isinstance(o, dict):
        return [a for v in o.values() for a in arrays(v, seen)]
    if type(o).__module__.startswith("dsptoolbox") and hasattr(o, "__dict__"):
        return [a for v in vars(o).values() for a in arrays(v, seen)]
    return []


def shared(a, b):
    """Whether two objects hold a common piece of memory."""
    xs = [x for x in arrays(a) if x.size]
    ys = [y for y in arrays(b) if y.size]
    return any(np.shares_memory(x, y) for x in xs for y in ys)
