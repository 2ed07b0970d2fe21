"""C26: beamforming maps peak at the source with the right level.

Oracles: geometry by direct computation, the published steering vectors, a
reference of every beamformer on the signal's cross-spectral matrix, and
simulated monopoles at known positions (built by the check, sample-exact)."""

import contextlib
import io
import warnings

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import simpson

import dsptoolbox as dsp
from vt import core, gen
from vt.core import close, raises, same, sub

PID = "C26"
B = dsp.beamforming
SV = B.SteeringVectorType
warnings.simplefilter("ignore")
STEER = ["Classic", "Inverse", "TruePower", "TrueLocation"]


def check(cond, msg, *extra):
    core.check(cond, f"{msg} {extra}" if extra else msg)


def from_array(x, fs, constrain=False):
    return dsp.Signal.from_time_data(x, fs, constrain)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


# ------------------------------------------------------------------- geometry
def array_points(c):
    r = np.random.default_rng(c["seed"])
    n = c["mics"]
    if c["layout"] == "random":
        p = r.uniform(-0.5, 0.5, (n, 3))
    elif c["layout"] == "plane":
        p = np.c_[r.uniform(-0.5, 0.5, (n, 2)), np.zeros(n)]
    elif c["layout"] == "line":
        p = np.c_[np.linspace(-0.4, 0.5, n), np.zeros(n), np.full(n, 0.1)]
    else:
        a = 2 * np.pi * np.arange(n) / n
        p = np.c_[0.4 * np.cos(a), 0.4 * np.sin(a), np.zeros(n)]
    return np.round(p, 4)


def pos(p):
    return dict(x=p[:, 0], y=p[:, 1], z=p[:, 2])


def dists(a, b):
    return np.array([[np.linalg.norm(u - v) for v in b] for u in a])


def lines(c):
    r = np.random.default_rng(c["gseed"])
    out = []
    for n in c["shape"]:
        out.append(np.round(np.sort(r.uniform(-1, 1, n)), 3))
    return out


def grid_of(c):
    """Grid, expected coordinates and expected shape of the maps."""
    a, b, d = lines(c)
    k = c["grid"]
    if k == "2d":
        dims = [c["dims"][0], c["dims"][1]]
        g = B.Regular2DGrid(a, b, [v.upper() if c["upper"] else v for v in dims], c["v"])
        rest = [v for v in "xyz" if v not in dims][0]
        pts = np.zeros((len(a) * len(b), 3))
        i = 0
        for u in a:
            for w in b:
                pts[i, "xyz".index(dims[0])] = u
                pts[i, "xyz".index(dims[1])] = w
                pts[i, "xyz".index(rest)] = c["v"]
                i += 1
        return g, pts, (len(a), len(b))
    if k == "3d":
        g = B.Regular3DGrid(a, b, d)
        pts = np.array([[u, v, w] for u in a for v in b for w in d])
        return g, pts, (len(a), len(b), len(d))
    if k == "line":
        dim = c["dims"][0]
        g = B.LineGrid(a, dim, c["v"], c["v"] + 0.25)
        i = "xyz".index(dim)
        pts = np.zeros((len(a), 3))
        pts[:, i] = a
        pts[:, (i + 1) % 3] = c["v"]
        pts[:, (i + 2) % 3] = c["v"] + 0.25
        return g, pts, (len(a),)
    r = np.random.default_rng(c["gseed"])
    pts = np.round(r.uniform(-1, 1, (c["shape"][0], 3)), 3)
    return B.Grid(pos(pts)), pts, (len(pts),)


GRID = dict(
    grid=st.sampled_from(["2d", "3d", "line", "free"]),
    shape=st.tuples(st.integers(1, 5), st.integers(1, 4), st.integers(1, 4)),
    dims=st.permutations(["x", "y", "z"]),
    upper=st.booleans(),
    v=gen.floats(-2, 2, 2),
    gseed=gen.seeds(),
)


@sub(PID, gen.fd(**GRID, q=st.lists(gen.floats(-2, 2), min_size=3, max_size=3)),
     quick=120, thorough=3000)
def geometry_of_grids(c):
    g, pts, shape = grid_of(c)
    close(g.coordinates, pts, "coordinates of the grid", atol=1e-12)
    check(g.number_of_points == len(pts), "number of points")
    d = g.get_distances_to_point(np.array(c["q"]))
    want = dists(pts, [c["q"]])[:, 0]
    close(d, want, "distances to a point", atol=1e-9)
    many = np.array([c["q"], pts[0], pts[-1]])
    close(g.get_distances_to_point(many), dists(pts, many), "distances to points", atol=1e-9)
    i, co = g.find_nearest_point(c["q"])
    close(want[i], want.min(), "nearest point", atol=1e-9)
    close(co, pts[i], "coordinates of the nearest point", atol=1e-12)
    j, _ = g.find_nearest_point(pts[-1])
    close(pts[j], pts[-1], "a grid point is its own nearest point", atol=1e-12)
    used = [d for k, d in enumerate("xyz") if len(set(pts[:, k])) > 1]
    check(list(g.dim) == used and g.ndim == len(used), "dimensions of the grid", g.dim, used)
    for k, d in enumerate("xyz"):
        close(g.extent[d], [pts[:, k].min(), pts[:, k].max()], "extent", atol=1e-12)
    # Coordinates are copied
    g.coordinates[0, 0] += 5
    close(g.coordinates, pts, "coordinates of the grid unchanged", atol=1e-12)
    # Maps keep their order: every entry belongs to its point
    m = g.reconstruct_map_shape(np.arange(len(pts), dtype=float))
    check(m.shape == shape, "shape of the map", m.shape, shape)
    if c["grid"] in ("2d", "3d"):
        ll = lines(c)[: len(shape)]
        r = np.random.default_rng(c["gseed"])
        idx = tuple(int(r.integers(n)) for n in shape)
        p = pts[int(m[idx])]
        names = c["dims"][:2] if c["grid"] == "2d" else "xyz"
        for k, name in enumerate(names):
            close(p["xyz".index(name)], ll[k][idx[k]], "map entry at its point", atol=1e-12)
        raises(lambda: g.reconstruct_map_shape(np.zeros(len(pts) + 1)), "wrong map length")
    return c["grid"] if len(pts) > 1 else None


ARRAY = dict(
    layout=st.sampled_from(["random", "plane", "line", "ring"]),
    mics=st.integers(3, 10),
    seed=gen.seeds(),
)


@sub(PID, gen.fd(**ARRAY, he=gen.floats(0.5, 20), c=st.sampled_from([343.0, 340.0, 1500.0]),
                 shift=st.lists(gen.floats(-50, 50), min_size=3, max_size=3)),
     quick=80, thorough=2000)
def geometry_of_arrays(c):
    p = array_points(c) + np.array(c["shift"])
    m = B.MicArray(pos(p))
    d = dists(p, p)
    off = ~np.eye(len(p), dtype=bool)
    close(m.aperture, d.max(), "aperture")
    close(m.min_distance, d[off].min(), "smallest distance between microphones")
    to_center = dists(p, [p.mean(axis=0)])[:, 0]
    i = m.array_center_channel_number
    close(to_center[i], to_center.min(), "central microphone", atol=1e-9)
    close(m.array_center_coordinates, p[i], "coordinates of the central microphone")
    close(m.he_to_hz(c["he"], c["c"]), c["he"] * c["c"] / d.max(), "He to Hz")
    close(m.hz_to_he(m.he_to_hz(c["he"], c["c"]), c["c"]), c["he"], "Hz to He")
    lo, hi = m.get_maximum_frequency_range(c["he"], c["c"])
    close(lo, c["he"] * c["c"] / d.max(), "lowest frequency of the array")
    close(hi, c["c"] / 2 / d[off].min(), "highest frequency of the array")
    close(m.coordinates, p, "coordinates of the array")
    s = from_array(np.ones((20, len(p))), 1000)
    bf = B.BeamformerDASTime(s, m, B.Grid(pos(p + 2.0)), c["c"])
    close(bf.get_frequency_range_from_he([1, c["he"]]),
          [c["c"] / d.max(), c["he"] * c["c"] / d.max()], "range of the beamformer")
    return c["layout"]


# ----------------------------------------------------------- steering vectors
def steering(kind, k, g, m):
    """Sarradj 2012, formulations I to IV. k: vector; g, m: coordinates."""
    n = len(m)
    center = m[np.argmin(np.linalg.norm(m - m.mean(axis=0), axis=1))]
    h = np.zeros((len(k), n, len(g)), complex)
    for t, x in enumerate(g):
        r0 = np.linalg.norm(x - center)
        r = np.linalg.norm(x - m, axis=1)
        s2 = np.sum(1 / r**2)
        a = {
            "Classic": np.full(n, 1 / n),
            "Inverse": r / r0 / n,
            "TruePower": 1 / (r0 * r * s2),
            "TrueLocation": 1 / (r * np.sqrt(n * s2)),
        }[kind]
        h[:, :, t] = a[None] * np.exp(-1j * k[:, None] * (r - r0)[None])
    return h


def unique_center(p):
    d = np.sort(np.linalg.norm(p - p.mean(axis=0), axis=1))
    return d[1] - d[0] > 1e-6


# The ring has all its microphones at the same distance from the centre
CENTERED = dict(ARRAY, layout=st.sampled_from(["random", "plane", "line"]))


@sub(PID, gen.fd(**CENTERED, **GRID, kind=st.sampled_from(STEER),
                 f=st.lists(gen.floats(20, 8000), min_size=1, max_size=3)),
     quick=100, thorough=2000)
def steering_vectors(c):
    p = array_points(c)
    g, pts, _ = grid_of(c)
    off = np.array([0.1, 0.2, 3.0])
    p = p - off
    if not unique_center(p):
        return None
    m = B.MicArray(pos(p))
    k = 2 * np.pi * np.array(c["f"]) / 343
    got = B.SteeringVector(getattr(SV, c["kind"])).get_vector(k, g, m)
    want = steering(c["kind"], k, pts, p)
    check(got.shape == want.shape, "shape of the steering vector", got.shape)
    close(got, want, "steering vector", rtol=1e-8, scale=np.abs(want).max())
    one = B.SteeringVector(getattr(SV, c["kind"])).get_vector(k[0], g, m)
    close(one, want[:1], "steering vector of one wave number", rtol=1e-8, scale=np.abs(want).max())
    return c["kind"]


# ----------------------------------------------------------------------- maps
def clean_sc(csm, h, iterations, safety, diag_removed):
    """CLEAN-SC after Sijtsma 2007, on one frequency."""
    d = csm.copy()
    norm = lambda a: np.abs(a).sum(axis=0).max()
    last = 2 * norm(d)
    dirty = np.real(np.einsum("ig,ij,jg->g", h.conj(), d, h))
    clean = np.zeros(len(dirty))
    gap = np.inf
    for _ in range(iterations):
        i = int(np.argmax(dirty))
        top = np.sort(dirty)[-2:]
        gap = min(gap, (top[-1] - top[0]) / max(abs(top[-1]), 1e-300)) if len(dirty) > 1 else gap
        p = dirty[i]
        clean[i] += p * safety
        now = norm(d)
        if now >= last:
            break
        gap = min(gap, (last - now) / last)
        w = h[:, i]
        hc = d @ w / p
        if diag_removed:
            dw, hc = hc, w.copy()
            for _ in range(20):
                hh = np.abs(hc) ** 2
                hc = (dw + hh * w) / np.sqrt(1 + np.sum(hh * np.abs(w) ** 2))
        gm = p * np.outer(hc, hc.conj())
        if diag_removed:
            np.fill_diagonal(gm, 0)
        dirty = dirty - safety * np.real(np.einsum("ig,ij,jg->g", h.conj(), gm, h))
        d = d - safety * gm
        last = now
    return clean, gap


def reference(c, csm, h):
    """Map per point and frequency, and a flag for decided maxima."""
    kind = c["bf"]
    n = csm.shape[1]
    out = np.zeros((h.shape[2], len(csm)))
    decided = True
    for k in range(len(csm)):
        x, v = csm[k].copy(), h[k]
        if kind == "das":
            if c["diag"]:
                x = x * n / (n - 1)
                np.fill_diagonal(x, 0)
            out[:, k] = np.real(np.einsum("ig,ij,jg->g", v.conj(), x, v))
            if c["diag"]:
                out[:, k] = np.maximum(out[:, k], 0)
        elif kind == "clean":
            if c["diag"]:
                np.fill_diagonal(x, 0)
            out[:, k], gap = clean_sc(x, v, c["iter"] or 2 * n, c["safety"], c["diag"])
            decided &= gap > 1e-6
        elif kind == "orth":
            w, e = np.linalg.eigh(x)
            for j in range(min(c["eig"] or n // 2, n)):
                y = np.abs(v.conj().T @ e[:, n - 1 - j]) ** 2
                i = int(np.argmax(y))
                s = np.sort(y)
                decided &= len(y) == 1 or s[-1] - s[-2] > 1e-7 * s[-1]
                out[i, k] += y[i] * w[n - 1 - j]
        elif kind == "func":
            w, e = np.linalg.eigh(x)
            root = (e * np.maximum(w, 0) ** (1 / c["gamma"])) @ e.conj().T
            hh = np.sum(np.abs(v) ** 2, axis=0)
            q = np.real(np.einsum("ig,ij,jg->g", v.conj(), root, v)) / hh
            out[:, k] = q ** c["gamma"] * hh
        else:
            out[:, k] = 1 / np.real(np.einsum("ig,ij,jg->g", v.conj(), np.linalg.inv(x), v))
    return out, decided


scaling = st.sampled_from(
    ["FFTBackward", "FFTBackward", "AmplitudeSpectrum", "PowerSpectralDensity", "PowerSpectrum",
     "AmplitudeSpectralDensity", "FFTForward"])
CLS = dict(
    das=B.BeamformerDASFrequency, clean=B.BeamformerCleanSC, orth=B.BeamformerOrthogonal,
    func=B.BeamformerFunctional, mvdr=B.BeamformerMVDR,
)


def run_map(c, s, m, g, sound=343.0):
    bf = CLS[c["bf"]](s, m, g, B.SteeringVector(getattr(SV, c["kind"])), sound)
    kw = dict(center_frequency_hz=c["fc"], octave_fraction=c["oct"])
    if c["bf"] == "das":
        kw["remove_csm_diagonal"] = c["diag"]
    elif c["bf"] == "clean":
        kw.update(maximum_iterations=c["iter"], safety_factor=c["safety"],
                  remove_csm_diagonal=c["diag"])
    elif c["bf"] == "orth":
        n = s.number_of_channels
        kw["number_eigenvalues"] = min(c["eig"], n) if c["eig"] else None
    elif c["bf"] == "func":
        kw["gamma"] = c["gamma"]
    return bf, quiet(bf.get_beamformer_map, **kw)


MAP = dict(
    bf=st.sampled_from(sorted(CLS)),
    kind=st.sampled_from(STEER),
    fc=gen.floats(300, 2500, 1),
    oct=st.sampled_from([0, 1, 3, 6]),
    diag=st.booleans(),
    iter=st.sampled_from([None, 1, 3, 12]),
    safety=st.sampled_from([0.3, 0.5, 1.0]),
    eig=st.sampled_from([None, 1, 2, 10]),
    gamma=st.sampled_from([1.0, 2.0, 10.0, 5.5]),
    sound=st.sampled_from([343.0, 340.0, 400.0]),
)


@sub(PID, gen.fd(**dict(CENTERED, mics=st.integers(3, 7)), **GRID, **MAP,
                 win=st.sampled_from([64, 128]), method=st.just("Welch"), scaling=scaling, cache=st.booleans(), nseed=gen.seeds()),
     quick=120, thorough=2500)
def maps(c):
    """Every beamformer against its definition, on noise."""
    fs = 8000
    off = np.array([0.1, 0.2, 3.0])
    p = array_points(c) - off
    if not unique_center(p):
        return None
    r = np.random.default_rng(c["nseed"])
    n = len(p)
    x = r.standard_normal((2000, n)) * 0.3 + r.standard_normal((2000, 1))
    s = dsp.Signal(None, x, fs, constrain_amplitude=False, activate_cache=c["cache"])
    s.set_spectrum_parameters(method=dsp.SpectrumMethod.WelchPeriodogram,
                              window_length_samples=c["win"],
                              scaling=getattr(dsp.SpectrumScaling, c["scaling"]))
    m = B.MicArray(pos(p))
    g, pts, shape = grid_of(c)
    bf, got = run_map(c, s, m, g, c["sound"])
    f, csm = csm_power(s, c)
    width = 2 ** (1 / c["oct"] / 2) if c["oct"] else 1.0
    ids = [int(np.argmin(np.abs(f - v))) for v in (c["fc"] / width, c["fc"] * width)]
    ties = [np.sort(np.abs(f - v))[:2] for v in (c["fc"] / width, c["fc"] * width)]
    if any(b - a < 1e-6 for a, b in ties):
        return None
    ids[1] = max(ids[1], ids[0] + 1)
    f, csm = f[ids[0] : ids[1]], csm[ids[0] : ids[1]]
    close(bf.f_range_hz, [f[0], f[-1]], "frequency range of the map")
    h = steering(c["kind"], 2 * np.pi * f / c["sound"], pts, p)
    want, decided = reference(c, csm, h)
    if not decided:
        return None
    want = simpson(want, dx=f[1] - f[0], axis=1) if len(f) > 1 else want[:, 0]
    check(got.shape == shape, "shape of the map", got.shape, shape)
    close(got, want.reshape(shape), f"map {c['bf']}", rtol=1e-6, scale=np.abs(want).max())
    # The same again: nothing is left over in the signal or the beamformer
    _, again = run_map(c, s, m, g, c["sound"])
    same(again, got, "map of a second run")
    same(s.time_data, x, "signal unchanged")
    got += 1.0
    close(np.asarray(bf.map), want.reshape(shape), "stored map is independent", rtol=1e-6,
          scale=np.abs(want).max())
    return f"{c['bf']} {c['oct'] > 0}"


# -------------------------------------------------------------- known sources
def tones(seed, win, count=4):
    """Tones on bins of the window: no leakage, exactly periodic frames."""
    r = np.random.default_rng(seed)
    k = np.sort(r.choice(np.arange(win // 8, win // 3, 3), count, replace=False))
    return k, r.uniform(0.2, 1.0, count), r.uniform(0, 2 * np.pi, count)


def periodic(s, win, c):
    """Welch with frames that contain complete periods of the tones."""
    s.set_spectrum_parameters(method=dsp.SpectrumMethod.WelchPeriodogram, detrend=False,
                              window_length_samples=win, overlap_percent=0,
                              scaling=getattr(dsp.SpectrumScaling, c["scaling"]))


def csm_power(s, c):
    """Amplitude scalings of the CSM are its element-wise square root (C05)."""
    f, csm = s.get_csm()
    sc = s.spectrum_scaling
    if sc.is_amplitude_scaling() and (c["method"] == "Welch" or sc.has_physical_units()):
        csm = csm**2
    return f, csm


def on_array(src, p, k, a, ph, win, n, fs, spread, sound=343.0):
    d = np.linalg.norm(p - src, axis=1)
    t = np.arange(n)[:, None] / fs - d[None] / sound
    x = np.zeros((n, len(p)))
    for kk, aa, pp in zip(k, a, ph):
        x += aa * np.cos(2 * np.pi * kk * fs / win * t + pp)
    return x * spread(d)[None]


SOURCE = dict(
    layout=st.sampled_from(["random", "plane"]), mics=st.integers(5, 9), seed=gen.seeds(),
    where=gen.seeds(), tseed=gen.seeds(), z=st.sampled_from([0.3, 1.0, 5.0]),
    method=st.sampled_from(["Welch", "FFT"]), scaling=scaling,
)


@sub(PID, gen.fd(**SOURCE, **dict(MAP, kind=st.sampled_from(["Classic", "TrueLocation"]),
                                  bf=st.sampled_from(["das", "clean", "orth", "func", "mvdr"]))),
     quick=120, thorough=2500)
def single_source(c):
    """The maximum is at the source, near and far, with every beamformer."""
    fs, win = 8000, 128
    p = array_points(c)
    if not unique_center(p):
        return None
    r = np.random.default_rng(c["where"])
    xs = np.linspace(-1, 1, 6) * max(c["z"], 0.6)
    g = B.Regular2DGrid(xs, xs, ("x", "y"), c["z"])
    i = int(r.integers(36))
    pts = g.coordinates
    k, a, ph = tones(c["tseed"], win)
    n = win * 16
    x = on_array(pts[i], p, k, a, ph, win, n, fs, lambda d: 1 / d)
    rms = np.sqrt(np.mean(x**2))
    noise = 1e-3 if c["bf"] == "mvdr" else 0.0
    if noise:
        x = x + noise * rms * r.standard_normal(x.shape)
    s = from_array(x, fs)
    if c["method"] == "Welch" or noise:
        periodic(s, win, c)
    else:
        s.set_spectrum_parameters(method=dsp.SpectrumMethod.FFT, pad_to_fast_length=False,
                                  scaling=getattr(dsp.SpectrumScaling, c["scaling"]))
    fc = float(k[c["seed"] % len(k)] * fs / win)
    case = dict(c, oct=0, fc=fc)
    if c["bf"] == "mvdr":
        # Distortionless steering: the constraint is fulfilled at the source
        # by the steering vector of the amplitudes at the microphones
        case["kind"] = "TrueLocation"
    _, got = run_map(case, s, B.MicArray(pos(p)), g)
    # Grid points that the array cannot tell apart at this frequency
    kw = np.array([2 * np.pi * fc / 343.0])
    h = steering(case["kind"], kw, pts, p)[0]
    d = np.linalg.norm(pts[i] - p, axis=1)
    v = np.exp(-1j * kw * d) / d
    b = np.abs(h.conj().T @ v) ** 2
    others = np.delete(b, i).max() / b[i]
    if others > 0.9:
        return None
    got = got.flatten()
    check(bool(np.all(np.isfinite(got))), "map without NaN")
    check(int(np.argmax(got)) == i, "maximum of the map at the source", int(np.argmax(got)), i,
          c["bf"])
    f, csm = csm_power(s, c)
    q = csm[int(np.argmin(np.abs(f - fc)))]
    total = np.real(h[:, i].conj() @ q @ h[:, i])
    if c["bf"] == "das" and not c["diag"]:
        close(got / got[i], b / b[i], "point spread function", rtol=1e-6, scale=1.0)
    if c["bf"] == "func" and c["gamma"] <= 2:
        # Side lobes are reduced by the exponent
        hh = np.sum(np.abs(h) ** 2, axis=0)
        lobe = (b / b[i] * hh[i] / hh) ** c["gamma"] * hh / hh[i]
        close(got / got[i], lobe, "lobes of the functional beamformer", rtol=1e-4, scale=1.0)
        close(got[i], total**c["gamma"] / hh[i] ** (c["gamma"] - 1) /
              (np.sum(np.abs(v) ** 2) * q[0, 0].real / abs(v[0]) ** 2) ** (c["gamma"] - 1),
              "level of the functional beamformer", rtol=1e-5)
    if c["bf"] == "orth":
        close(got[i], total, "power of the orthogonal beamformer", rtol=1e-6)
        check(np.delete(got, i).max() < 1e-6 * got[i], "no other sources")
    if c["bf"] == "clean" and not c["diag"]:
        # Every iteration takes the same share of what is left
        it = c["iter"] or 2 * len(p)
        close(got[i], total * (1 - (1 - c["safety"]) ** it), "power of the cleaned map",
              rtol=0.02)
        check(np.delete(got, i).max() <= 1e-6 * got[i], "everything at the source")
    return c["bf"]


@sub(PID, gen.fd(**dict(SOURCE, method=st.just("Welch")), kind=st.sampled_from(STEER)),
     quick=60, thorough=1000)
def source_power(c):
    """Inverse and true-power formulations report the power at the centre."""
    fs, win = 8000, 128
    p = array_points(c)
    if not unique_center(p):
        return None
    r = np.random.default_rng(c["where"])
    xs = np.linspace(-1, 1, 3)
    g = B.Regular2DGrid(xs, xs, ("x", "y"), c["z"])
    i = int(r.integers(9))
    pts = g.coordinates
    k, a, ph = tones(c["tseed"], win)
    x = on_array(pts[i], p, k, a, ph, win, win * 16, fs, lambda d: 1 / d)
    s = from_array(x, fs)
    periodic(s, win, c)
    m = B.MicArray(pos(p))
    fc = float(k[0] * fs / win)
    case = dict(bf="das", kind=c["kind"], fc=fc, oct=0, diag=False)
    _, got = run_map(case, s, m, g)
    f, csm = csm_power(s, c)
    q = csm[int(np.argmin(np.abs(f - fc)))]
    ce = m.array_center_channel_number
    center = q[ce, ce].real
    d = np.linalg.norm(pts[i] - p, axis=1)
    r0 = d[ce]
    n = len(d)
    want = center * {
        "Classic": (r0 / n * np.sum(1 / d)) ** 2,
        "Inverse": 1.0,
        "TruePower": 1.0,
        "TrueLocation": r0**2 * np.sum(1 / d**2) / n,
    }[c["kind"]]
    close(got.flatten()[i], want, "power at the source", rtol=1e-6)
    return c["kind"]


# ----------------------------------------------------- propagation and mixing
def pulse_signal(seed, n, fs, at):
    """A smooth band-limited pulse, known at any time."""
    r = np.random.default_rng(seed)
    f0, w = r.uniform(0.08, 0.15) * fs, r.uniform(12, 20) / fs
    ph = r.uniform(0, 2 * np.pi)

    def x(t):
        u = t - at / fs
        return np.exp(-0.5 * (u / w) ** 2) * np.cos(2 * np.pi * f0 * u + ph)

    return x


@sub(PID, gen.fd(**ARRAY, n_src=st.integers(1, 3), sseed=gen.seeds(),
                 fs=st.sampled_from([8000, 44100]), sound=st.sampled_from([343.0, 340.0, 500.0]),
                 lengths=st.lists(st.sampled_from([600, 600, 700, 550]), min_size=3, max_size=3),
                 single=st.booleans(), constrain=st.booleans()),
     quick=60, thorough=1200)
def propagation(c):
    p = array_points(c)
    fs = c["fs"]
    r = np.random.default_rng(c["sseed"])
    m = B.MicArray(pos(p))
    n_src = c["n_src"]
    lens = c["lengths"][:n_src]
    n = min(lens)
    fun, src, where = [], [], []
    for j in range(n_src):
        x = pulse_signal(c["sseed"] + j, lens[j], fs, 130 + 10 * j)
        q = np.round(r.uniform(-1.5, 1.5, 3), 3)
        s = from_array(x(np.arange(lens[j]) / fs), fs, c["constrain"])
        fun.append(x), where.append(q), src.append(B.MonopoleSource(s, q))
    keep = [(o.emitted_signal.time_data.copy(), o.coordinates.copy()) for o in src]

    def expected(j, length):
        d = np.linalg.norm(p - where[j], axis=1)
        t = np.arange(length)[:, None] / fs - d[None] / c["sound"]
        return fun[j](t) / (1 + d[None])

    one = src[0].get_signals_on_array(m, c["sound"])
    check(one.time_data.shape == (lens[0], len(p)), "shape on the array", one.time_data.shape)
    check(one.sampling_rate_hz == fs, "sampling rate on the array")
    scale = max(np.abs(o.emitted_signal.time_data).max() for o in src)
    body = slice(40, n - 40)
    close(one.time_data[body], expected(0, lens[0])[body], "signals of one source", rtol=2e-3,
          scale=scale)
    arg = src[0] if (c["single"] and n_src == 1) else list(src)
    mixed = B.mix_sources_on_array(arg, m, c["sound"])
    if isinstance(arg, list):
        check(len(arg) == n_src and all(u is v for u, v in zip(arg, src)),
              "list of sources unchanged")
    for o, (t, q) in zip(src, keep):
        same(o.emitted_signal.time_data, t, "emitted signal unchanged")
        same(o.coordinates, q, "position of the source unchanged")
    check(mixed.time_data.shape == (n, len(p)), "shape of the mix", mixed.time_data.shape)
    want = sum(expected(j, n) for j in range(n_src))
    if c["constrain"]:
        # One common factor in case of clipping, saved with the signal
        want = want * mixed.amplitude_scale_factor
        check(np.abs(mixed.time_data).max() <= 1 + 1e-12, "amplitude constrained")
    close(mixed.time_data[body], want[body], "sum of the sources", rtol=2e-3, scale=scale * n_src)
    back = B.mix_sources_on_array(src[::-1], m, c["sound"])
    close(back.time_data, mixed.time_data, "order of the sources", rtol=1e-9, scale=scale)
    return f"{n_src}"


@sub(PID, gen.fd(**CENTERED, sseed=gen.seeds(), fs=st.sampled_from([8000, 44100]),
                 sound=st.sampled_from([343.0, 340.0, 150.0]), amp=st.sampled_from([1.0, 0.02]),
                 constrain=st.booleans(), z=st.sampled_from([0.5, 2.0])),
     quick=40, thorough=800)
def delay_and_sum_in_time(c):
    """Focused on the source, the emitted signal is recovered."""
    p = array_points(c)
    fs = c["fs"]
    r = np.random.default_rng(c["sseed"])
    m = B.MicArray(pos(p))
    xs = np.linspace(-0.8, 0.8, 3)
    g = B.Regular2DGrid(xs, xs[:2], ("x", "y"), c["z"])
    pts = g.coordinates
    i = int(r.integers(len(pts)))
    n = 1500 if fs == 44100 else 500
    x = pulse_signal(c["sseed"], n, fs, 150)
    d = dists(p, pts)
    t = np.arange(n) / fs
    sig = from_array(
        c["amp"] * np.stack([x(t - dd / c["sound"]) / dd for dd in d[:, i]], axis=1), fs,
        c["constrain"])
    factor = np.abs(sig.time_data).max() / c["amp"] / max(
        np.abs(x(t - dd / c["sound"]) / dd).max() for dd in d[:, i])
    before = sig.time_data.copy()
    out = quiet(B.BeamformerDASTime(sig, m, g, c["sound"]).get_beamformer_output)
    same(sig.time_data, before, "signal unchanged")
    check(out.number_of_channels == len(pts), "one channel per grid point")
    check(out.sampling_rate_hz == fs, "sampling rate")
    r0 = d.max()
    check(n + (r0 - d.min()) / c["sound"] * fs <= out.length_samples
          <= n + (r0 - d.min()) / c["sound"] * fs + 4,
          "delayed signals fit into the output", out.length_samples)
    # An overload of the result is normalized with one factor for all points
    after = out.amplitude_scale_factor if c["constrain"] else 1.0
    tt = np.arange(out.length_samples) / fs
    top = np.abs(sig.time_data).max() * d.max() * after
    for j in range(len(pts)):
        # Every channel delayed to the largest distance of all
        want = sum(
            x(tt - d[k, i] / c["sound"] - (r0 - d[k, j]) / c["sound"]) * d[k, j] / d[k, i]
            for k in range(len(p))
        ) / len(p) * c["amp"] * factor * after
        body = slice(40, n - 40)
        close(out.time_data[body, j], want[body], "focused signal", rtol=3e-2,
              scale=top)
    focus = c["amp"] * factor * after * x(tt - r0 / c["sound"])
    close(out.time_data[40 : n - 40, i], focus[40 : n - 40], "emitted signal at the source",
          rtol=3e-2, scale=top)
    return "focus"


@sub(PID, gen.fd(**CENTERED, sseed=gen.seeds(), where=gen.seeds(),
                 z=st.sampled_from([1.0, 3.0]), diag=st.booleans()),
     quick=40, thorough=600)
def from_source_to_map(c):
    """The complete chain: sources, array, map in frequency and time domain."""
    p = array_points(c)
    if len(p) < 5 or c["layout"] == "line" or not unique_center(p):
        return None
    fs = 8000
    r = np.random.default_rng(c["where"])
    xs = np.linspace(-1, 1, 4) * c["z"] * 0.8
    g = B.Regular2DGrid(xs, xs, ("x", "y"), c["z"])
    pts = g.coordinates
    i = int(r.integers(16))
    x = np.zeros(4096)
    x[64:-256] = r.standard_normal(4096 - 320)
    x = np.convolve(x, np.sinc((np.arange(-60, 61)) * 0.5) * np.hanning(121), "same")
    src = B.MonopoleSource(from_array(x, fs), pts[i])
    s = B.mix_sources_on_array(src, B.MicArray(pos(p)))
    s.set_spectrum_parameters(method=dsp.SpectrumMethod.WelchPeriodogram,
                              window_length_samples=256)
    fc = 1200.0
    case = dict(bf="das", kind="Classic", fc=fc, oct=3, diag=c["diag"])
    _, got = run_map(case, s, B.MicArray(pos(p)), g)
    # What the array can tell apart in this band
    f = np.arange(fc * 0.9, fc * 1.12, 40.0)
    h = steering("Classic", 2 * np.pi * f / 343.0, pts, p)
    d = np.linalg.norm(pts[i] - p, axis=1)
    v = np.exp(-2j * np.pi * f[:, None] / 343.0 * d) / (1 + d)
    b = np.sum(np.abs(np.einsum("fig,fi->fg", h.conj(), v)) ** 2, axis=0)
    if np.delete(b, i).max() > 0.75 * b[i]:
        return None
    check(int(np.argmax(got)) == i, "maximum of the map at the source", int(np.argmax(got)), i)
    out = quiet(B.BeamformerDASTime(s, B.MicArray(pos(p)), g).get_beamformer_output)
    check(out.number_of_channels == len(pts), "one channel per grid point")
    return "chain"


@sub(PID, gen.fd(**GRID, **CENTERED, idx=st.integers(0, 3)), quick=12, thorough=150)
def plots_of_maps(c):
    """The plotted matrix is the map in dB."""
    c = dict(c, grid="2d" if c["grid"] in ("2d", "line") else "3d",
             shape=[max(v, 2) for v in c["shape"]])
    g, pts, shape = grid_of(c)
    r = np.random.default_rng(c["gseed"])
    m = r.uniform(0.01, 1, len(pts))
    db = 10 * np.log10(m.reshape(shape))
    plt.close("all")
    if c["grid"] == "2d":
        _, ax = g.plot_map(m, 30)
        want = db
    else:
        k = c["idx"] % 3
        i = c["idx"] % shape[k]
        _, ax = g.plot_map(m, "xyz"[k], lines(c)[k][i] + 1e-6, 30)
        same_value = np.flatnonzero(np.abs(lines(c)[k] - lines(c)[k][i]) < 1e-5)
        if len(same_value) > 1:
            return None
        want = np.take(db, i, axis=k)
    close(np.asarray(ax.images[0].get_array()), want, "plotted map", rtol=1e-9, scale=1.0)
    plt.close("all")
    B.BeamformerDASTime(from_array(np.ones((20, 3)), 1000),
                        B.MicArray(pos(array_points(dict(c, mics=3)))), g).plot_setting()
    plt.close("all")
    return c["grid"]
