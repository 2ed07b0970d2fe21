"""C22: room models obey geometry and the reverberation formulas.

Oracles: closed-form expressions, an own vectorised image-source sum, the
modal sum of a rectangular room, wall-by-wall absorption areas."""

import contextlib
import io
import itertools

import numpy as np
from hypothesis import strategies as st

import dsptoolbox as dsp
from vt import core, gen
from vt.core import close, raises, same, sub

PID = "C22"
RA = dsp.room_acoustics
WALLS = ["north", "south", "east", "west", "floor", "ceiling"]
# Wall -> (axis, far end). South, west and floor start at the origin.
PLACE = dict(west=(0, 0), east=(0, 1), south=(1, 0), north=(1, 1), floor=(2, 0), ceiling=(2, 1))


def check(cond, msg, *extra):
    core.check(cond, f"{msg} {extra}" if extra else msg)


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


DIMS = st.tuples(*[gen.floats(1.5, 12)] * 3)
UNIT = st.tuples(*[gen.floats(0.0, 1.0)] * 3)


# -------------------------------------------------------------- closed forms
@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            dims=DIMS,
            alpha=gen.floats(0.01, 1.0),
            by=st.sampled_from(["alpha", "t60"]),
            n=st.integers(1, 3000),
            c=st.sampled_from([343.0, 340, 300.0]),
            f=st.lists(gen.floats(5, 5000), min_size=1, max_size=4),
            form=st.sampled_from(["list", "tuple", "array", "column"]),
        )
    ),
    quick=200,
    thorough=8000,
)
def closed_forms(c):
    d = np.array(c["dims"])
    arg = {"list": list(d), "tuple": tuple(d), "array": d, "column": d[:, None]}[
        c["form"]
    ]
    x, y, z = d
    V, S = x * y * z, 2 * (x * y + x * z + y * z)
    T = 0.161 * V / S / c["alpha"]
    if c["by"] == "alpha":
        room = RA.ShoeboxRoom(arg, absorption_coefficient=c["alpha"])
    else:
        if c["alpha"] > 0.999:
            return None
        room = RA.ShoeboxRoom(arg, t60_s=T)
    close(room.volume, V, "volume", rtol=1e-12)
    close(room.area, S, "area", rtol=1e-12)
    close(room.t60_s, T, "reverberation time", rtol=1e-12)
    close(room.absorption_coefficient, c["alpha"], "absorption", rtol=1e-12)
    close(room.schroeders_frequency, 2000 * np.sqrt(T / V), "schroeder", rtol=1e-12)
    close(room.critical_distance_m, 0.057 * np.sqrt(V / T), "critical", rtol=1e-12)
    f = np.array(c["f"])
    cc = c["c"]
    want = 4 * np.pi * V * f**2 / cc**3 + np.pi * S * f / (2 * cc**2)
    close(room.modal_density(f, cc), want, "modal density", rtol=1e-12)
    close(room.modal_density(float(f[0]), cc), want[0], "modal density", rtol=1e-12)
    close(room.dimensions_m, d, "dimensions")
    got = room.get_mixing_time("perceptual")
    close(got, 1e-3 * (0.58 * np.sqrt(V) + 21.2), "perceptual", rtol=1e-12)
    close(room.mixing_time_s, got, "saved mixing time")
    got = room.get_mixing_time("physical", c["n"], cc)
    close(got, np.sqrt(c["n"] * V / (4 * np.pi * cc**3)), "physical", rtol=1e-12)
    close(room.mixing_time_s, got, "saved mixing time")
    return c["by"]


@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            dims=st.one_of(DIMS, st.tuples(*[st.integers(2, 6).map(float)] * 3)),
            order=st.integers(1, 5),
            c=st.sampled_from([None, 343.0, 331.5]),
        )
    ),
    quick=60,
    thorough=2000,
)
def eigenfrequencies(c):
    d = np.array(c["dims"])
    room = RA.ShoeboxRoom(d, absorption_coefficient=0.5)
    kw = {} if c["c"] is None else dict(c=c["c"])
    got = room.get_room_modes(c["order"], **kw)
    cc = c["c"] or 343.0
    m = c["order"] + 1
    check(got.shape == (m**3 - 1, 4), "number of modes", got.shape)
    check(np.all(np.diff(got[:, 0]) >= 0), "sorted")
    check(len({tuple(r) for r in got[:, 1:]}) == len(got), "each mode once")
    check(np.all(got[:, 1:] <= c["order"]) and np.all(got[:, 1:] >= 0), "orders")
    check(np.all(got[:, 1:] == np.round(got[:, 1:])), "integer orders")
    want = cc / 2 * np.sqrt(np.sum((got[:, 1:] / d) ** 2, axis=1))
    close(got[:, 0], want, "frequencies", rtol=1e-12)
    same(room.modes_hz, got, "saved modes")
    return "modes"


@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            dims=DIMS,
            p=st.tuples(*[gen.floats(-0.6, 1.6)] * 3),
            edge=st.lists(st.sampled_from([None, 0.0, 1.0]), min_size=3, max_size=3),
            form=st.sampled_from(["list", "array", "column"]),
            bad=st.integers(0, 5),
        )
    ),
    quick=120,
    thorough=4000,
)
def inside(c):
    d = np.array(c["dims"])
    room = RA.ShoeboxRoom(d, absorption_coefficient=0.9)
    u = np.array([p if e is None else e for p, e in zip(c["p"], c["edge"])])
    p = u * d
    want = bool(np.all((u >= 0) & (u <= 1)))
    arg = {"list": list(p), "array": p, "column": p[:, None]}[c["form"]]
    got = room.check_if_in_room(arg)
    check(isinstance(got, bool) and got == want, "in room", got, u)
    ok = d * 0.37
    if not want:
        f = np.array([30.0, 60.0])
        for s, r in ((p, ok), (ok, p)):
            raises(
                lambda: RA.generate_synthetic_rir(room, s, r, 2000, 0.02, max_order=1),
                "position outside accepted",
            )
            raises(
                lambda: room.get_analytical_transfer_function(s, r, f, 2, False),
                "position outside accepted",
            )
    bad = [
        lambda: RA.ShoeboxRoom(d[:2], absorption_coefficient=0.5),
        lambda: RA.ShoeboxRoom(d * [1, -1, 1], absorption_coefficient=0.5),
        lambda: RA.ShoeboxRoom(d * [1, 1, 0], absorption_coefficient=0.5),
        lambda: RA.ShoeboxRoom(d, absorption_coefficient=1.1),
        lambda: RA.ShoeboxRoom(d, t60_s=0.161 * 0.9 * room.volume / room.area),
        lambda: RA.ShoeboxRoom(d),
    ][c["bad"]]
    raises(bad, "impossible room accepted")
    return "inside" if want else "outside"


# ------------------------------------------------------------- image sources
def images(d, s, r, beta, order, fs, c=343.0):
    """Arrival samples and amplitudes of all images; beta[axis][end]."""
    parts = []
    for a in range(3):
        rows = []
        for q in range(-order, order + 1):
            for u in (0, 1):
                x = (1 - 2 * u) * s[a] + 2 * q * d[a] - r[a]
                rows.append((x, beta[a][0] ** abs(q - u) * beta[a][1] ** abs(q)))
        parts.append(np.array(rows))
    X, Y, Z = parts
    dist = np.sqrt(
        X[:, 0][:, None, None] ** 2 + Y[:, 0][None, :, None] ** 2 + Z[:, 0] ** 2
    ).ravel()
    amp = (X[:, 1][:, None, None] * Y[:, 1][None, :, None] * Z[:, 1]).ravel()
    return dist / c * fs, amp / (4 * np.pi * dist), dist


def sum_images(pos, amp, n):
    """Impulse response and the samples where rounding decides."""
    y = np.zeros(n)
    i = np.floor(pos + 0.5).astype(int)
    ok = i < n
    np.add.at(y, i[ok], amp[ok])
    doubt = np.abs(pos + 0.5 - np.round(pos + 0.5)) < 1e-6
    bad = np.zeros(n + 2, bool)
    for k in i[doubt]:
        if k <= n:
            bad[max(k - 1, 0) : k + 2] = True
    return y, bad[:n]


@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            dims=st.one_of(
                DIMS,
                st.tuples(*[st.sampled_from([2.0, 3.0, 4.0, 6.0])] * 3),
                st.tuples(gen.floats(10, 25), gen.floats(1.5, 3), gen.floats(1.5, 3)),
            ),
            s=st.one_of(UNIT, st.just((0.5, 0.5, 0.5)), st.just((0.25, 0.5, 0.5))),
            r=st.one_of(UNIT, st.just((0.75, 0.5, 0.5)), st.just((0.5, 0.5, 0.25))),
            alpha=gen.floats(0.1, 1.0),
            order=st.integers(0, 3),
            auto=st.sampled_from([False, False, False, True]),
            fs=st.sampled_from([1000, 4000, 8000, 44100]),
            dur=gen.floats(0.01, 0.3),
        )
    ),
    quick=40,
    thorough=1500,
)
def synthetic(c):
    d = np.array(c["dims"])
    s, r = np.array(c["s"]) * d, np.array(c["r"]) * d
    dist0 = np.linalg.norm(s - r)
    if dist0 < 0.15:
        return None
    fs = c["fs"]
    alpha = c["alpha"]
    order = c["order"]
    if c["auto"]:
        alpha = max(alpha, 0.9)
        order = None
    room = RA.ShoeboxRoom(d, absorption_coefficient=alpha)
    T = room.t60_s
    if order is None:
        lim = int(np.ceil(np.linalg.norm(343 * 1.1 * T / 2 / d)))
        if lim > 10:
            order = 3
    n = round(c["dur"] * fs)
    if n < 2:
        return None
    kw = dict(total_length_seconds=c["dur"], max_order=order)
    got = quiet(RA.generate_synthetic_rir, room, s, r, fs, **kw)
    check(type(got) is dsp.ImpulseResponse, "type")
    check(got.sampling_rate_hz == fs, "rate")
    check(got.number_of_channels == 1, "channels")
    check(len(got) == n or abs(c["dur"] * fs - n) > 0.3 and abs(len(got) - n) <= 1, "length", len(got), n)
    h = got.time_data[:, 0]
    beta = [[np.sqrt(1 - alpha)] * 2] * 3
    # Images beyond the order come at the earliest after ...
    if order is None:
        full, m = 343 * 1.1 * T, lim + 1
    else:
        lim = int(np.ceil(np.linalg.norm(343 * 1.1 * T / 2 / d)))
        m = min(order, lim)
        full = 2 * m * d.min()
        m += 1
    pos, amp, dist = images(d, s, r, beta, m, fs)
    reach = max(min(int(full / 343 * fs - 2), len(h), int(T * 5 * fs)), 0)
    want, doubt = sum_images(pos, amp, len(h))
    if reach > 0:
        g, w = h[:reach], want[:reach]
        close(
            np.where(doubt[:reach], 0, g),
            np.where(doubt[:reach], 0, w),
            "image sources",
            rtol=1e-9,
            atol=1e-12,
        )
    # Direct sound
    i0 = int(np.floor(dist0 / 343 * fs + 0.5))
    if i0 < min(len(h), int(T * 5 * fs)):
        check(h[i0] >= 1 / (4 * np.pi * dist0) * (1 - 1e-9), "direct sound", h[i0])
        check(np.all(h[:i0] == 0), "silence before the direct sound")
    check(np.all(h >= 0) and np.all(np.isfinite(h)), "finite")
    # Nothing of an order beyond the one asked for
    far = images(d, s, r, beta, m - 1, fs)[0]
    check(not np.any(h[int(np.max(far)) + 2 :]), "reflections of a higher order")
    # Reciprocity
    back = quiet(RA.generate_synthetic_rir, room, r, s, fs, **kw).time_data[:, 0]
    close(
        np.where(doubt, 0, back)[: max(reach, min(i0, len(h)))],
        np.where(doubt, 0, h)[: max(reach, min(i0, len(h)))],
        "reciprocity",
        rtol=1e-9,
        atol=1e-12,
    )
    return "all orders" if order is None else f"order {order}"


@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            dims=st.tuples(*[gen.floats(2, 6)] * 3),
            s=UNIT,
            r=UNIT,
            bands=st.integers(1, 5),
            same=st.booleans(),
            order=st.integers(1, 2),
            fs=st.sampled_from([8000, 16000]),
            seed=gen.seeds(),
        )
    ),
    quick=20,
    thorough=400,
)
def walls(c):
    """Different absorption of each wall and band."""
    r_ = np.random.default_rng(c["seed"])
    d = np.array(c["dims"])
    s, r = np.array(c["s"]) * d, np.array(c["r"]) * d
    if np.linalg.norm(s - r) < 0.3:
        return None
    fs, nb = c["fs"], c["bands"]
    if 125 * 2 ** (nb - 1) * 1.5 > fs / 2:
        return None
    a = r_.uniform(0.05, 0.95, (6, nb))
    if c["same"]:
        a[:] = a[:, [0]]
    room = RA.ShoeboxRoom(d, absorption_coefficient=0.5)
    room.add_detailed_absorption({w: a[i].copy() for i, w in enumerate(WALLS)})
    dur = 0.25
    got = quiet(
        RA.generate_synthetic_rir,
        room, s, r, fs, dur, use_detailed_absorption=True, max_order=c["order"] + 1,
    ).time_data[:, 0]
    n = len(got)
    cross = 125 * 2.0 ** np.arange(nb - 1) * np.sqrt(2)
    if nb > 1:
        fb = dsp.filterbanks.linkwitz_riley_crossovers(cross, 12, fs)
    want = np.zeros(n)
    late = np.zeros(n)
    lim = int(np.ceil(np.linalg.norm(343 * 1.1 * room.t60_s / 2 / d)))
    m = min(lim, c["order"] + 1)
    for b in range(nb):
        beta = [[0, 0], [0, 0], [0, 0]]
        for i, w in enumerate(WALLS):
            ax, far = PLACE[w]
            beta[ax][far] = np.sqrt(1 - a[i, b])
        pos, amp, _ = images(d, s, r, beta, m, fs)
        y, doubt = sum_images(pos, amp, n)
        if doubt.any():
            return None
        if nb == 1:
            want += y
            continue
        x = dsp.ImpulseResponse(None, y, fs, constrain_amplitude=False)
        want += fb.filter_signal(x, zero_phase=True).bands[b].time_data[:, 0]
    # Responses are complete until the first image of a higher order arrives
    full = int(2 * m * d.min() / 343 * fs)
    del late
    close(got[:full], want[:full], "bands of image sources", atol=2e-2 * want.max(), rtol=0)
    first = max(int(np.linalg.norm(s - r) / 343 * fs) + 20, 1)
    close(got[:first], want[:first], "direct sound", atol=2e-2 * want.max(), rtol=0)
    return "same bands" if c["same"] else "bands"


@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            dims=st.tuples(*[gen.floats(2, 5)] * 3),
            s=UNIT,
            r=UNIT,
            alpha=gen.floats(0.5, 0.95),
            fs=st.sampled_from([4000, 8000]),
            mix=st.sampled_from(["perceptual", None, 200, 20000]),
            seed=gen.seeds(),
        )
    ),
    quick=20,
    thorough=300,
)
def tail(c):
    """The noise only fills the gaps of the late response."""
    d = np.array(c["dims"])
    s, r = np.array(c["s"]) * d, np.array(c["r"]) * d
    if np.linalg.norm(s - r) < 0.3:
        return None
    room = RA.ShoeboxRoom(d, absorption_coefficient=c["alpha"])
    fs = c["fs"]
    kw = dict(total_length_seconds=0.3, max_order=3)
    plain = RA.generate_synthetic_rir(room, s, r, fs, **kw).time_data[:, 0]
    if c["mix"] == "perceptual":
        t = room.get_mixing_time("perceptual")
    elif c["mix"]:
        t = room.get_mixing_time("physical", n_reflections=c["mix"])
    else:
        t = np.sqrt(1000 * room.volume / (4 * np.pi * 343**3))
    np.random.seed(c["seed"])
    got = RA.generate_synthetic_rir(
        room, s, r, fs, add_noise_reverberant_tail=True, **kw
    ).time_data[:, 0]
    check(got.shape == plain.shape, "length")
    first = int(np.flatnonzero(plain)[0]) + int(t * fs)
    if first + 60 > len(plain) or not plain[first - 50 : first + 50].any():
        return None
    same(got[:first], plain[:first], "before the mixing time")
    hit = plain != 0
    same(got[hit], plain[hit], "reflections")
    check(np.all(np.isfinite(got)), "finite")
    gap = np.flatnonzero(~hit)
    gap = gap[gap >= first]
    check(np.mean(got[gap] != 0) > 0.9, "noise in the gaps")
    e = np.abs(got[gap])
    early, late = e[gap < first + 0.05 * fs], e[gap >= len(got) - 0.05 * fs]
    if len(early) > 50 and len(late) > 50 and len(got) - first > 0.1 * fs:
        check(early.max() >= late.max(), "decay")
    return "tail"


# --------------------------------------------------- analytic transfer function
@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            dims=DIMS,
            s=UNIT,
            r=UNIT,
            alpha=gen.floats(0.05, 0.9),
            order=st.integers(1, 4),
            detail=st.booleans(),
            c=st.sampled_from([None, 343, 331.5]),
            n=st.integers(2, 40),
            plot=st.booleans(),
            seed=gen.seeds(),
        )
    ),
    quick=60,
    thorough=1500,
)
def analytic(c):
    r_ = np.random.default_rng(c["seed"])
    d = np.array(c["dims"])
    s, r = np.array(c["s"]) * d, np.array(c["r"]) * d
    room = RA.ShoeboxRoom(d, absorption_coefficient=c["alpha"])
    bands = None
    if c["detail"]:
        a = r_.uniform(0.05, 0.9, (6, 4))
        room.add_detailed_absorption({w: a[i] for i, w in enumerate(WALLS)})
        bands = room.detailed_absorption["center_frequencies"]
        T = np.asarray(room.detailed_absorption["t60_s_per_frequency"])
    f = np.sort(r_.uniform(10, 400, c["n"]))
    kw = {} if c["c"] is None else dict(c=c["c"])
    plot = c["plot"] and c["seed"] % 8 == 0
    p, modes, plt = room.get_analytical_transfer_function(
        list(s), r, f, c["order"], plot, **kw
    )
    check((plt is not None) == plot, "plot")
    if plot:
        import matplotlib.pyplot as mp

        mp.close("all")
    cc = c["c"] or 343
    want = np.zeros(c["n"], complex)
    w = 2 * np.pi * f
    for o in itertools.product(range(c["order"] + 1), repeat=3):
        if not any(o):
            continue
        k = np.pi * np.array(o) / d
        wn = cc * np.linalg.norm(k)
        if bands is None:
            t = room.t60_s
        else:
            t = T[np.argmin(np.abs(wn / 2 / np.pi - bands))]
        cn = {1: 4, 2: 2, 3: 1}[sum(v > 0 for v in o)]
        num = np.prod(np.cos(k * s)) * np.prod(np.cos(k * r))
        want += num / (cn * (wn**2 - w**2 + 2j * (np.log(1e3) / t) * wn))
    want *= 8 * cc**2 / np.prod(d)
    close(p, want, "modal sum", rtol=1e-8, scale=np.abs(want).max(), atol=1e-10)
    ref = RA.ShoeboxRoom(d, absorption_coefficient=0.5).get_room_modes(c["order"], cc)
    check(modes.shape == ref.shape, "modes", modes.shape)
    close(modes[:, 0], ref[:, 0], "mode frequencies", rtol=1e-12)
    back = room.get_analytical_transfer_function(r, s, f, c["order"], False, **kw)[0]
    close(back, p, "reciprocity", rtol=1e-9, scale=np.abs(p).max())
    return "detailed" if c["detail"] else "mean"


# --------------------------------------------------------- detailed absorption
@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            dims=DIMS,
            lens=st.lists(st.integers(0, 8), min_size=6, max_size=6),
            seed=gen.seeds(),
            order=st.permutations(list(range(6))),
            bad=st.integers(0, 4),
        )
    ),
    quick=120,
    thorough=4000,
)
def absorption(c):
    r = np.random.default_rng(c["seed"])
    d = np.array(c["dims"])
    room = RA.ShoeboxRoom(d, absorption_coefficient=0.5)
    given, nb = {}, 1
    for i in c["order"]:
        n = c["lens"][i]
        v = np.round(r.uniform(0.01, 0.99, max(n, 1)), 4)
        given[WALLS[i]] = float(v[0]) if n == 0 else ([float(k) for k in v] if n % 2 else v)
        nb = max(nb, n)
    backup = {k: np.array(v).copy() for k, v in given.items()}
    keys = list(given)
    room.add_detailed_absorption(given)
    check(list(given) == keys, "passed dictionary is left alone", list(given))
    for k in keys:
        same(np.array(given[k]), backup[k], "passed coefficients are left alone")
    out = room.detailed_absorption
    a = np.zeros((6, nb))
    for i, w in enumerate(WALLS):
        v = np.atleast_1d(backup[w])
        a[i] = np.r_[v, np.full(nb - len(v), v[-1])]
        same(np.asarray(out[w]), a[i], "wall")
    idx = out["index_wall_dictionary"]
    check(sorted(idx) == sorted(WALLS), "walls")
    for i, w in enumerate(WALLS):
        same(out["absorption_matrix"][idx[w]], a[i], "absorption matrix")
    x, y, z = d
    areas = dict(zip(WALLS, [x * z, x * z, y * z, y * z, x * y, x * y]))
    A = sum(areas[w] * a[i] for i, w in enumerate(WALLS))
    V, S = np.prod(d), sum(areas.values())
    close(out["absorption_area"], A, "absorption area", rtol=1e-12)
    key = "mean_absorption_coefficients_per_frequency"
    close(out[key], A / S, "mean absorption", rtol=1e-12)
    close(out["t60_s_per_frequency"], 0.161 * V / A, "T60 per band", rtol=1e-12)
    close(out["center_frequencies"], 125 * 2.0 ** np.arange(nb), "centres")
    m = room.absorption_coefficient
    check((A / S).min() * (1 - 1e-12) <= m <= (A / S).max() * (1 + 1e-12), "mean", m)
    w = 2.0 ** np.arange(nb)
    close(m, np.sum(A / S * w) / np.sum(w), "weights proportional to bandwidth")
    close(room.t60_s, 0.161 * V / (m * S), "T60", rtol=1e-12)
    good = {w: 0.5 for w in WALLS}
    bad = [
        dict(good, north=1.5),
        dict(good, floor=[0.5, -0.1]),
        {k: v for k, v in good.items() if k != "east"},
        {("roof" if k == "ceiling" else k): v for k, v in good.items()},
        dict(good, west=[0.5] * 9),
    ][c["bad"]]
    raises(lambda: room.add_detailed_absorption(bad), "invalid absorption accepted")
    return f"{nb} bands"
