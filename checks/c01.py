"""C01: a signal behaves as the array of channels it holds.

Model: a complex-or-real numpy array (samples x channels), a rate, the
limiting flag and the last scale factor. Operation histories are run on the
model and on the real object; after every step everything observable has to
agree (1e-12 relative: no operation does more than one division)."""

import numpy as np
from hypothesis import strategies as st

import dsptoolbox as dsp
from vt import gen
from vt.core import check, close, fail, raises, same, sub

PID = "C01"
MAXCH = 8


class Model:
    def __init__(self, x, fs, constrain, is_ir):
        self.fs, self.constrain, self.is_ir = fs, constrain, is_ir
        self.set(x)

    def set(self, x):
        x = np.array(x, dtype=complex if np.iscomplexobj(x) else float)
        self.factor = 1.0
        if self.constrain:
            p = max(np.max(np.abs(x.real)), np.max(np.abs(x.imag)))
            if p > 1.0:
                x = x / p
                self.factor = 1.0 / p
        self.x = x

    def derived(self, x):
        return Model(x, self.fs, self.constrain, self.is_ir)


def compare(s, m, what, factor=True):
    n, ch = m.x.shape
    check(
        type(s) is (dsp.ImpulseResponse if m.is_ir else dsp.Signal),
        f"{what}: type {type(s).__name__}",
    )
    check(s.number_of_channels == ch, f"{what}: {s.number_of_channels} channels, not {ch}")
    check(len(s) == n and s.length_samples == n, f"{what}: length {len(s)}, not {n}")
    check(s.sampling_rate_hz == m.fs, f"{what}: sampling rate")
    close(s.length_seconds, n / m.fs, f"{what}: duration", 1e-12)
    close(s.time_data, m.x.real, f"{what}: samples", 1e-12)
    cplx = np.iscomplexobj(m.x)
    check(s.is_complex_signal == cplx, f"{what}: is_complex_signal {s.is_complex_signal}")
    if cplx:
        close(s.time_data_imaginary, m.x.imag, f"{what}: imaginary part", 1e-12, 1e-300)
    else:
        check(s.time_data_imaginary is None, f"{what}: imaginary part")
    close(s.time_vector_s, np.linspace(0, n / m.fs, n), f"{what}: time axis", 1e-9)
    chans = list(s)
    check(len(chans) == ch, f"{what}: iteration yields {len(chans)} channels")
    for i, c in enumerate(chans):
        close(c, m.x.real[:, i], f"{what}: iteration over channel {i}", 1e-12)
    check(s.constrain_amplitude == m.constrain, f"{what}: constrain_amplitude")
    if factor:
        close(s.amplitude_scale_factor, m.factor, f"{what}: scale factor", 1e-12)
    md = s.metadata
    check(
        md["number_of_channels"] == ch
        and md["signal_length_samples"] == n
        and md["sampling_rate_hz"] == m.fs
        and md["is_complex_signal"] == cplx,
        f"{what}: metadata {md}",
    )
    check(isinstance(s.metadata_str, str) and isinstance(str(s), str), "description")


def state(s):
    return (
        s.time_data.copy(),
        None if s.time_data_imaginary is None else s.time_data_imaginary.copy(),
        s.sampling_rate_hz,
        s.constrain_amplitude,
        s.amplitude_scale_factor,
    )


def unchanged(s, st0, what):
    st1 = state(s)
    same(st1[0], st0[0], f"{what}: samples after a refused request")
    check((st1[1] is None) == (st0[1] is None), f"{what}: imaginary part lost")
    if st0[1] is not None:
        same(st1[1], st0[1], f"{what}: imaginary part after a refused request")
    check(st1[2:] == st0[2:], f"{what}: {st1[2:]} != {st0[2:]}")


OPS = st.one_of(
    gen.fd(
        op=st.just("add"),
        dn=st.sampled_from([0, 0, -5, -1, 1, 7, 30]),
        ch=st.integers(1, 3),
        form=st.sampled_from(["2d", "1d", "T", "list", "int"]),
        cplx=st.booleans(),
        seed=gen.seeds(),
        amp=st.sampled_from([0.3, 1.0, 4.0]),
        allow=st.booleans(),
        badfs=st.sampled_from([False, False, False, True]),
    ),
    gen.fd(op=st.just("remove"), i=st.integers(-1, 5)),
    gen.fd(
        op=st.just("swap"),
        seed=gen.seeds(),
        bad=st.sampled_from([None, None, None, "dup", "len", "range", "neg"]),
    ),
    gen.fd(
        op=st.just("get"),
        idx=st.lists(st.integers(-2, 9), min_size=1, max_size=4),
        scalar=st.booleans(),
        go=st.booleans(),
    ),
    gen.fd(op=st.just("sum"), go=st.booleans()),
    gen.fd(
        op=st.just("set"),
        n=st.integers(12, 60),
        ch=st.integers(1, 4),
        form=st.sampled_from(["2d", "1d", "T", "list", "int", "F"]),
        cplx=st.booleans(),
        seed=gen.seeds(),
        amp=st.sampled_from([0.3, 1.0, 4.0]),
    ),
    gen.fd(op=st.just("set_bad")),
    gen.fd(op=st.just("imag"), kind=st.sampled_from(["new", "none", "bad"]), seed=gen.seeds()),
    gen.fd(op=st.just("constrain"), v=st.booleans()),
    gen.fd(op=st.just("fs"), fs=st.sampled_from(gen.FS), bad=st.booleans()),
    gen.fd(op=st.just("copy"), go=st.booleans()),
    gen.fd(op=st.just("cwn"), n=st.integers(12, 50), ch=st.integers(1, 3), seed=gen.seeds(),
           amp=st.sampled_from([0.3, 4.0]), view=st.booleans(), go=st.booleans()),
)


def arr(seed, n, ch, amp, cplx, form):
    r = np.random.default_rng(seed)
    x = r.standard_normal((n, ch)) * amp
    if cplx:
        x = x + 1j * r.standard_normal((n, ch)) * amp
    if form == "int":
        x = r.integers(-5, 6, (n, ch))
    if form == "1d":
        x = x[:, :1]
        return x, x[:, 0].copy()
    if form == "T":
        return x, np.ascontiguousarray(x.T)
    if form == "list":
        return x, x.tolist()
    if form == "F":
        return x, np.asfortranarray(x)
    return x, x.copy()


@sub(
    PID,
    gen.fd(
        s=gen.sig(12, 60, amp=st.sampled_from([0.3, 1.0, 4.0])),
        cplx=st.booleans(),
        ir=st.booleans(),
        constrain=st.booleans(),
        cache=st.booleans(),
        ops=st.lists(OPS, min_size=1, max_size=10),
    ),
    quick=500,
    cap=25,
)
def histories(c):
    """Operation histories on the container against the array model."""
    x0 = gen.data(c["s"])
    if c["cplx"]:
        x0 = x0 + 1j * gen.imag(c["s"])
    cls = dsp.ImpulseResponse if c["ir"] else dsp.Signal
    s = cls(None, x0.copy(), c["s"]["fs"], c["constrain"], c["cache"])
    m = Model(x0, c["s"]["fs"], c["constrain"], c["ir"])
    compare(s, m, "new")
    done = 0
    for k, o in enumerate(c["ops"]):
        op = o["op"]
        what = f"step {k} {op}"
        n, ch = m.x.shape
        st0 = state(s)
        if op == "add":
            if ch + o["ch"] > MAXCH:
                continue
            nn = max(n + o["dn"], 8)
            new, given = arr(o["seed"], nn, o["ch"], o["amp"], o["cplx"], o["form"])
            if o["badfs"]:
                raises(
                    lambda: s.add_channel(None, given, m.fs + 1),
                    what + " with another sampling rate",
                )
                unchanged(s, st0, what)
            elif nn != n and not o["allow"]:
                raises(
                    lambda: s.add_channel(
                        None, given, m.fs, allow_padding_trimming=False
                    ),
                    what + " with another length",
                )
                unchanged(s, st0, what)
            else:
                r = s.add_channel(None, given, m.fs, allow_padding_trimming=o["allow"])
                check(r is s, what + " does not return the signal")
                fit = np.zeros((n, new.shape[1]), new.dtype)
                fit[: min(n, nn)] = new[: min(n, nn)]
                m.set(np.concatenate([m.x, fit], axis=1))
        elif op == "remove":
            i = o["i"]
            if ch == 1 or i >= ch:
                raises(lambda: s.remove_channel(i), what + f" {i} of {ch}")
                unchanged(s, st0, what)
            else:
                s.remove_channel(i)
                m.set(np.delete(m.x, i if i >= 0 else ch - 1, axis=1))
        elif op == "swap":
            p = np.random.default_rng(o["seed"]).permutation(ch)
            bad = o["bad"]
            if bad is None:
                s.swap_channels(p.tolist() if o["seed"] % 2 else p)
                m.set(m.x[:, p])
            else:
                p = p.astype(int)
                if bad == "dup":
                    if ch == 1:
                        continue
                    p[0] = p[1]
                elif bad == "len":
                    p = np.r_[p, ch]
                elif bad == "range":
                    p[0] = ch
                else:
                    p[0] = -1 if ch > 1 else -2
                raises(lambda: s.swap_channels(p), what + f" {p.tolist()}")
                unchanged(s, st0, what)
        elif op == "get":
            idx = [max(i % ch, 0) if i >= 0 else max(i, -ch) for i in o["idx"]]
            if o["scalar"]:
                idx = idx[:1]
            if len(idx) > n:
                continue
            r = s.get_channels(idx[0] if o["scalar"] else idx)
            rm = m.derived(m.x[:, idx])
            compare(r, rm, what)
            compare(s, m, what + " (source)")
            check(not np.shares_memory(r.time_data, s.time_data), what + ": shared memory")
            if o["go"]:
                s, m = r, rm
        elif op == "sum":
            r = s.sum_channels()
            rm = m.derived(m.x.sum(axis=1, keepdims=True))
            compare(r, rm, what)
            check(not np.shares_memory(r.time_data, s.time_data), what + ": shared memory")
            if o["go"]:
                s, m = r, rm
        elif op == "set":
            new, given = arr(o["seed"], o["n"], o["ch"], o["amp"], o["cplx"], o["form"])
            keep = np.array(given, copy=True)
            s.time_data = given
            same(np.array(given), keep, what + ": the array given was changed")
            m.set(new)
        elif op == "set_bad":
            raises(
                lambda: setattr(s, "time_data", np.ones((4, 3, 2))),
                what + " three dimensions",
            )
            unchanged(s, st0, what)
        elif op == "imag":
            r = np.random.default_rng(o["seed"])
            if o["kind"] == "none":
                s.time_data_imaginary = None
                m.x = m.x.real.copy()
            elif o["kind"] == "bad":
                raises(
                    lambda: setattr(s, "time_data_imaginary", np.ones((n + 1, ch))),
                    what + " of another shape",
                )
                unchanged(s, st0, what)
            else:
                im = r.standard_normal((n, ch)) * 0.2
                s.time_data_imaginary = im.copy()
                m.x = m.x.real + 1j * im
        elif op == "constrain":
            s.constrain_amplitude = o["v"]
            m.constrain = o["v"]
            if o["v"]:
                m.set(m.x)
        elif op == "fs":
            if o["bad"]:
                raises(lambda: setattr(s, "sampling_rate_hz", 44100.5), what)
                unchanged(s, st0, what)
            else:
                s.sampling_rate_hz = o["fs"]
                m.fs = o["fs"]
        elif op == "copy":
            r = s.copy()
            compare(r, m, what)
            r.time_data[...] = 0.123
            r.sampling_rate_hz = 12345
            compare(s, m, what + ": after editing the copy")
            r = s.copy()
            if o["go"]:
                s.time_data[...] = 0.5
                s = r
        elif op == "cwn":
            x = np.random.default_rng(o["seed"]).standard_normal((o["n"], o["ch"])) * o["amp"]
            given = np.concatenate([x, x])[: o["n"]] if o["view"] else x.copy()
            r = s.copy_with_new_time_data(given)
            rm = m.derived(x)
            compare(r, rm, what)
            same(given, x, what + ": the array given was changed")
            if o["go"]:
                s, m = r, rm
        else:
            fail(op)
        compare(s, m, what)
        done += 1
    return f"{'complex' if c['cplx'] else 'real'}-{min(done, 6)}ops" if done else None


@sub(
    PID,
    gen.fd(
        s=gen.sig(12, 60, amp=st.sampled_from([0.3, 4.0])),
        cplx=st.booleans(),
        constrain=st.booleans(),
        flag=st.booleans(),
    ),
    quick=150,
)
def constructors(c):
    """All ways to build a signal or impulse response hold the same data."""
    x = gen.data(c["s"])
    if c["cplx"]:
        x = x + 1j * gen.imag(c["s"])
    fs = c["s"]["fs"]
    for cls, is_ir in ((dsp.Signal, False), (dsp.ImpulseResponse, True)):
        m = Model(x, fs, c["constrain"], is_ir)
        given = x.copy()
        a = cls.from_time_data(given, fs, c["constrain"])
        same(given, x, "from_time_data changed the array given")
        # the limiting may be carried out in an inner object: no factor check
        compare(a, m, f"{cls.__name__}.from_time_data", factor=not is_ir)
        compare(cls(None, given, fs, c["constrain"]), m, cls.__name__)
        same(given, x, "the constructor changed the array given")
    s = dsp.Signal(None, x.copy(), fs, c["constrain"])
    s.calibrated_signal = c["flag"]
    ir = dsp.ImpulseResponse.from_signal(s)
    compare(ir, Model(x, fs, c["constrain"], True), "from_signal", factor=False)
    check(ir.calibrated_signal == c["flag"], "from_signal: calibration flag")
    check(ir.spectrum_method == dsp.SpectrumMethod.FFT, "impulse responses use FFT")
    before = s.time_data.copy()
    ir.time_data[...] = 0.0
    same(s.time_data, before, "editing the impulse response changed the signal")
    b = s.copy_with_new_time_data(x[:, :1].copy())
    check(b.calibrated_signal == c["flag"], "copy_with_new_time_data: calibration flag")
    return "complex" if c["cplx"] else "real"


KEEP = dict(
    copy=lambda s: s.copy(),
    new=lambda s: s.copy_with_new_time_data(s.time_data.copy()),
    new_view=lambda s: s.copy_with_new_time_data(s.time_data[::-1]),
    get=lambda s: s.get_channels([0]),
    get_all=lambda s: s.get_channels(list(range(s.number_of_channels))),
    sum=lambda s: s.sum_channels(),
    pad=lambda s: dsp.pad_trim(s, len(s) + 5),
    trim=lambda s: dsp.pad_trim(s, len(s) - 3),
)


@sub(
    PID,
    gen.fd(
        s=gen.sig(50, 90, kinds=["noise"]),
        ir=st.booleans(),
        constrain=st.booleans(),
        cal=st.booleans(),
        cache=st.booleans(),
        scal=st.integers(0, len(list(dsp.SpectrumScaling)) - 1),
        sm=st.integers(0, 4),
        wl=st.sampled_from([16, 32]),
        gwl=st.sampled_from([16, 32]),
        det=st.booleans(),
        op=st.sampled_from(sorted(KEEP)),
    ),
    quick=200,
)
def settings_travel(c):
    """What is derived from a signal has its settings, on its own."""
    s = gen.mk(c["s"], dsp.ImpulseResponse if c["ir"] else dsp.Signal)
    s.constrain_amplitude = c["constrain"]
    s.calibrated_signal = c["cal"]
    s.activate_cache = c["cache"]
    sc = list(dsp.SpectrumScaling)[c["scal"]]

    def setup(o):
        o.set_spectrum_parameters(dsp.SpectrumMethod.FFT, c["sm"], False, c["wl"], dsp.Window.Blackman, 25, c["det"], "median", sc)
        o.set_spectrogram_parameters(c["gwl"], dsp.Window.Blackman, 25, 2 * c["gwl"], c["det"], True, sc)
        return o

    setup(s)
    if c["cache"]:
        s.get_spectrum()
    r = KEEP[c["op"]](s)
    check(r is not s and type(r) is type(s), "a new object of the same kind")
    for what in ("sampling_rate_hz", "constrain_amplitude", "calibrated_signal", "activate_cache", "spectrum_method",
                 "spectrum_scaling", "spectrum_smoothing"):
        check(getattr(r, what) == getattr(s, what), f"{what} after {c['op']}", getattr(r, what))
    fresh = setup(type(r)(None, r.time_data.copy(), r.sampling_rate_hz, False))
    for what in ("get_spectrum", "get_spectrogram"):
        for a, b in zip(getattr(r, what)(), getattr(fresh, what)()):
            close(a, b, f"{what} after {c['op']}", 1e-10, nan_ok=True)
    # on its own: settings of one are not those of the other
    r.set_spectrogram_parameters(window_length_samples=32)
    r.spectrum_smoothing = 9
    r.spectrum_scaling = dsp.SpectrumScaling.PowerSpectralDensity
    check(s.spectrum_smoothing == c["sm"] and s.spectrum_scaling == sc, "settings of the source")
    check(s.get_spectrogram()[1].size == c["gwl"] + 1, "spectrogram settings of the source")
    same(s.time_data, gen.data(c["s"]), "samples of the source") if np.max(np.abs(gen.data(c["s"]))) <= 1 else None
    return c["op"]
