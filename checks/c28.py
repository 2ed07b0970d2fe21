"""C28: playback and recording exchange exactly the requested samples.

The audio device is replaced by a stand-in (the sounddevice entry points used
by the package) that works like sounddevice: it routes data columns to the
mapped output channels and returns, for every mapped input channel, the samples
of a known device input. What it received / delivered is the oracle."""

import builtins
import contextlib
import io

import numpy as np
import sounddevice as sd
from hypothesis import strategies as st

import dsptoolbox as dsp
from vt import core, gen
from vt.core import close, raises, same, sub

PID = "C28"
A = dsp.audio_io
NAMES = ["Built-in Microphone", "Built-in Output", "Fireface UCX (Out)",
         "USB Audio", "fireface UCX (In)", "HDMI"]


def check(cond, msg, *extra):
    core.check(cond, f"{msg} {extra}" if extra else msg)


class Device:
    """Stand-in for sounddevice: 8 inputs, 16 outputs."""

    def __init__(self, seed=0, dtype="float32"):
        self.rng, self.log, self.dtype = np.random.default_rng(seed), [], dtype

    def route(self, data, mapping):
        data = np.array(data)
        if data.ndim == 1:
            data = data[:, None]
        mapping = (np.arange(1, data.shape[1] + 1) if mapping is None
                   else np.atleast_1d(mapping))
        assert mapping.ndim == 1 and mapping.min() >= 1 and len(set(mapping)) == len(mapping)
        if data.shape[1] not in (1, len(mapping)):
            raise ValueError("number of output channels != size of output mapping")
        out = np.zeros((len(data), 16))
        out[:, mapping - 1] = data
        return out

    def take(self, frames, channels, mapping):
        assert isinstance(frames, (int, np.integer)), "frames must be an integer"
        self.input = self.rng.uniform(-1, 1, (frames, 8)).astype(self.dtype)
        mapping = np.arange(1, channels + 1) if mapping is None else np.atleast_1d(mapping)
        return np.ascontiguousarray(self.input[:, mapping - 1])

    def play(self, data, samplerate=None, mapping=None, blocking=False, loop=False, **kw):
        assert not loop
        self.log.append(dict(out=self.route(data, mapping), fs=samplerate, blocking=blocking))

    def rec(self, frames=None, samplerate=None, channels=None, dtype=None, out=None,
            mapping=None, blocking=False, **kw):
        self.log.append(dict(fs=samplerate, blocking=blocking, frames=frames))
        return self.take(frames, channels, mapping)

    def playrec(self, data, samplerate=None, channels=None, dtype=None, out=None,
                input_mapping=None, output_mapping=None, blocking=False, **kw):
        r = self.route(data, output_mapping)
        self.log.append(dict(out=r, fs=samplerate, blocking=blocking))
        return self.take(len(r), channels, input_mapping)

    def wait(self, ignore_errors=True):
        for e in self.log:
            e["blocking"] = True

    def query_devices(self, device=None, kind=None):
        devs = [dict(name=n, index=i, max_input_channels=8, max_output_channels=16,
                     default_samplerate=48000.0) for i, n in enumerate(NAMES)]
        return devs if device is None else devs[device]


class Stream:
    """Stand-in stream: calls the callback until it is told to stop."""

    def __init__(self, **kw):
        self.kw, self.blocks = kw, []

    def start(self, limit):
        n = self.kw["blocksize"]
        for i in range(limit):
            out = np.full((n, self.kw["channels"]), np.nan)
            try:
                self.kw["callback"](out, n, None, None)
            except sd.CallbackStop:
                self.blocks.append(out)
                if self.kw["finished_callback"]:
                    self.kw["finished_callback"]()
                return True
            self.blocks.append(out)
        return False


@contextlib.contextmanager
def device(seed=0, dtype="float32", answer=None):
    dev = Device(seed, dtype)
    fake = {k: getattr(dev, k) for k in ("play", "rec", "playrec", "wait", "query_devices")}
    fake["OutputStream"] = Stream
    fake["sleep"] = lambda ms: dev.log.append(ms)
    real = {k: getattr(sd, k) for k in fake}
    keep, ask = dict(vars(sd.default)), builtins.input
    try:
        for k, f in fake.items():
            setattr(sd, k, f)
        builtins.input = lambda *a: answer
        with contextlib.redirect_stdout(io.StringIO()):
            yield dev
    finally:
        builtins.input = ask
        for k, f in real.items():
            setattr(sd, k, f)
        vars(sd.default).clear()
        vars(sd.default).update(keep)


def channels(c, key, n, top):
    """A selection of n channels in the given order (or how to pass it)."""
    how = c[key]
    order = [int(v) for v in np.random.default_rng(c["seed"] + len(key)).permutation(top)[:n] + 1]
    if how == "int" and n == 1:
        return order[0], order
    if how == "tuple":
        return tuple(order), order
    if how == "array":
        return np.array(order), order
    return order, order


def same_channels(got, dev, rec, msg):
    """The recorded columns are the selected device inputs, in rising order."""
    same(got, dev.input[:, np.array(sorted(rec)) - 1].astype(float), msg)


def duration(c, s):
    """(argument, shortest, longest number of samples)"""
    n, fs = s.length_samples, s.sampling_rate_hz
    if c["dur"] is None:
        return None, n, n
    k = max(1, round(c["dur"] * n))
    d = k / fs if c["odd"] == 0 else (k + c["odd"]) / fs
    lo = hi = k
    if c["odd"]:  # between two samples
        hi = k + 1
    return d, min(lo, n), min(hi, n)


def spare(c, named, **defaults):
    """Leaves out the arguments that have their documented default value."""
    if not c.get("omit"):
        return named
    return {k: v for k, v in named.items() if k not in defaults or not (v is None and defaults[k] is None or type(v) is type(defaults[k]) and v == defaults[k])}


CASE = dict(omit=st.booleans(), s=gen.sig(min_n=8, max_n=200, max_ch=5), seed=gen.seeds(),
            dur=st.none() | gen.floats(0.05, 1.5), odd=st.sampled_from([0, 0, 0.5, 0.3]),
            db=st.none() | st.sampled_from([0, -6, -6, -1.5, -40]) | gen.floats(-60, 0),
            play=st.sampled_from(["none", "list", "tuple", "array", "int"]),
            rec=st.sampled_from(["list", "tuple", "array", "int"]), nr=st.integers(1, 6),
            dev=st.sampled_from([None, None, 1, [0, 2]]), imag=st.booleans())


def expected(s, n, db):
    x = s.time_data[:n]
    if db is None:
        return x
    peak = np.max(np.abs(x))
    return x * (10 ** (db / 20) / peak if peak > 0 else 1.0)


def played(c, s, entry, order, lo, hi, before):
    check(entry["fs"] == s.sampling_rate_hz, "sampling rate of the device")
    check(entry["blocking"], "function waits until the sound has been played")
    out = entry["out"]
    check(lo <= len(out) <= hi, "played length", len(out), lo, hi)
    want = np.zeros((len(out), 16))
    want[:, np.array(order) - 1] = expected(s, len(out), c["db"])
    if c["db"] is None:
        same(out, want, "samples at the device")
    else:
        close(out, want, "samples at the device", rtol=1e-12)
        top = np.max(np.abs(want))
        check(abs(np.max(np.abs(out)) - top) <= 1e-12 * top, "level at the device")
    same(s.time_data, before, "signal after playback")


@sub(PID, gen.fd(**CASE), quick=150, thorough=4000)
def playback(c):
    s = gen.mk(c["s"])
    before = s.time_data.copy()
    nch = s.number_of_channels
    arg, order = ((None, list(range(1, nch + 1))) if c["play"] == "none"
                  else channels(c, "play", nch, 16))
    d, lo, hi = duration(c, s)
    if hi < 1:
        return None
    with device(c["seed"]) as dev:
        A.play(s, **spare(c, dict(duration_seconds=d, normalized_dbfs=c["db"], device=c["dev"], play_channels=arg),
                          duration_seconds=None, normalized_dbfs=-6, device=None, play_channels=None))
        if c["dev"] is not None:
            want = [c["dev"]] * 2 if isinstance(c["dev"], int) else c["dev"]
            check(list(sd.default.device) == want, "device used")
        check(len(dev.log) == 1, "exactly one playback")
        played(c, s, dev.log[0], order, lo, hi, before)
    return f"{c['play']}-{'all' if d is None else 'trim' if hi < s.length_samples else 'long'}"


@sub(PID, gen.fd(**CASE), quick=150, thorough=4000)
def play_record(c):
    s = gen.mk(c["s"])
    before = s.time_data.copy()
    nch = s.number_of_channels
    arg, order = ((None, list(range(1, nch + 1))) if c["play"] == "none"
                  else channels(c, "play", nch, 16))
    nr = 1 if c["rec"] == "int" else c["nr"]
    rarg, rec = ([1], [1]) if c["omit"] and c["imag"] else channels(c, "rec", nr, 8)
    d, lo, hi = duration(c, s)
    if lo < 8:
        return None  # fewer samples than channels are read as transposed
    with device(c["seed"]) as dev:
        r = A.play_and_record(s, **spare(c, dict(duration_seconds=d, normalized_dbfs=c["db"], device=c["dev"],
                                                 play_channels=arg, rec_channels=rarg),
                                         duration_seconds=None, normalized_dbfs=-6, device=None, play_channels=None, rec_channels=[1]))
        if c["dev"] is not None:
            want = [c["dev"]] * 2 if isinstance(c["dev"], int) else c["dev"]
            check(list(sd.default.device) == want, "device used")
        check(len(dev.log) == 1, "exactly one measurement")
        played(c, s, dev.log[0], order, lo, hi, before)
    check(type(r) is dsp.Signal, "recording is a signal")
    check(r.sampling_rate_hz == s.sampling_rate_hz, "sampling rate of the recording")
    check(r.length_samples == len(dev.log[0]["out"]), "length of the recording")
    same_channels(r.time_data, dev, rec, "recorded samples")
    return f"{c['play']}-{c['rec']}"


@sub(PID, gen.fd(omit=st.booleans(), usual=st.booleans(), first=st.booleans(), fs=st.sampled_from([8000, 16000, 44100, 48000, 48000, 96000, 100]),
                 k=st.integers(9, 400), den=st.sampled_from([1, 4, 25, 50, 0]),
                 seed=gen.seeds(), rec=st.sampled_from(["list", "tuple", "array", "int"]),
                 nr=st.integers(1, 8), dev=st.sampled_from([None, None, 1, [0, 2]]),
                 dtype=st.sampled_from(["float32", "float64"])),
     quick=100, thorough=3000)
def recording(c):
    fs, k = c["fs"], c["k"]
    if c["den"]:
        d, lo, hi = k / fs, k, k
    else:
        d = (k + 0.5) / fs
        lo, hi = k, k + 1
    if c["omit"] and c["usual"]:
        d, lo, hi = 5, 5 * fs, 5 * fs
    rarg, rec = ([1], [1]) if c["omit"] and c["first"] else channels(c, "rec", 1 if c["rec"] == "int" else c["nr"], 8)
    with device(c["seed"], c["dtype"]) as dev:
        r = A.record(**spare(c, dict(duration_seconds=d, sampling_rate_hz=fs, device=c["dev"], rec_channels=rarg),
                             duration_seconds=5, sampling_rate_hz=48000, device=None, rec_channels=[1]))
        if c["dev"] is not None:
            want = [c["dev"]] * 2 if isinstance(c["dev"], int) else c["dev"]
            check(list(sd.default.device) == want, "device used")
    check(len(dev.log) == 1, "exactly one recording")
    check(dev.log[0]["fs"] == fs and dev.log[0]["blocking"], "settings of the recording")
    check(lo <= r.length_samples <= hi, "length of the recording", r.length_samples, lo, hi)
    check(r.sampling_rate_hz == fs, "sampling rate of the recording")
    check(type(r) is dsp.Signal, "recording is a signal")
    same_channels(r.time_data, dev, rec, "recorded samples")
    return c["rec"]


@sub(PID, gen.fd(omit=st.booleans(), s=gen.sig(min_n=4, max_n=300, max_ch=4), block=st.sampled_from([1, 7, 16, 64, 2048]),
                 dev=st.sampled_from([None, 2, "HDMI"]), lat=st.sampled_from([None, "low", 0.1]),
                 clip=st.sampled_from([None, True, False]), dither=st.sampled_from([None, True]),
                 drop=st.sampled_from([None, False]), prime=st.sampled_from([None, True]),
                 fin=st.booleans(), extra=st.sampled_from([None, "x"])),
     quick=80, thorough=2000)
def streams(c):
    s = gen.mk(c["s"])
    pos, done = [0], []

    def callback(out, frames, time, status):
        part = s.time_data[pos[0]:pos[0] + frames]
        out[:len(part)] = part
        out[len(part):] = 0
        pos[0] += frames
        if pos[0] >= s.length_samples:
            A.CallbackStop()

    with device():
        given = dict(
            blocksize=c["block"], device=c["dev"], latency=c["lat"], extra_settings=c["extra"],
            callback=callback, finished_callback=(lambda: done.append(1)) if c["fin"] else None,
            clip_off=c["clip"], dither_off=c["dither"], never_drop_input=c["drop"],
            prime_output_buffers_using_stream_callback=c["prime"])
        stream = A.output_stream(s, **spare(c, given, **{k: 2048 if k == "blocksize" else None for k in given if k != "callback"}))
        kw = stream.kw
        for key, want in dict(samplerate=s.sampling_rate_hz, channels=s.number_of_channels,
                              blocksize=c["block"], device=c["dev"], latency=c["lat"],
                              extra_settings=c["extra"], clip_off=c["clip"],
                              dither_off=c["dither"], never_drop_input=c["drop"],
                              prime_output_buffers_using_stream_callback=c["prime"]).items():
            check(kw.get(key) == want, f"stream setting {key}", kw.get(key), want)
        n = -(-s.length_samples // c["block"])
        stopped = stream.start(n + 3)
    check(stopped, "CallbackStop ends the stream")
    check(len(stream.blocks) == n, "stream ends with the last block", len(stream.blocks), n)
    got = np.concatenate(stream.blocks)
    same(got[:s.length_samples], s.time_data, "streamed samples")
    check(not np.any(got[s.length_samples:]), "rest of the last block is silent")
    check(len(done) == int(c["fin"]), "finished callback")
    return f"blocks{min(n, 3)}"


@sub(PID, gen.fd(a=st.integers(0, 5), b=st.integers(0, 5), form=st.sampled_from(
        ["int", "pair", "str", "strs", "ask", "ask2"]), part=st.sampled_from([0, 1, 2]),
        case=st.booleans(), fs=st.sampled_from([None, 44100, 96000])), quick=60, thorough=1000)
def device_choice(c):
    a, b = c["a"], c["b"]

    def text(i):
        name = NAMES[i] if c["part"] == 0 else NAMES[i][:5] if c["part"] == 1 else NAMES[i][-6:]
        return name.upper() if c["case"] else name

    def find(t):
        return next(i for i, n in enumerate(NAMES) if t.lower() in n.lower())

    if c["form"] == "int":
        arg, want = a, [a, a]
    elif c["form"] == "pair":
        arg, want = [a, b], [a, b]
    elif c["form"] == "str":
        arg, want = text(a), [find(text(a))] * 2
    elif c["form"] == "strs":
        arg, want = [text(a), text(b)], [find(text(a)), find(text(b))]
    else:
        arg, want = None, [a, a] if c["form"] == "ask" else [a, b]
    with device(answer=f"{a}" if c["form"] == "ask" else f"{a}, {b}") as dev:
        before = sd.default.samplerate
        A.set_device(arg, sampling_rate_hz=c["fs"])
        check(list(sd.default.device) == want, "selected devices", list(sd.default.device), want)
        check(sd.default.samplerate == (before if c["fs"] is None else c["fs"]),
              "default sampling rate")
        check(A.default_config.device is sd.default.device or
              list(A.default_config.device) == want, "default configuration")
        d = A.print_device_info(a)
        check(d["name"] == NAMES[a], "device information")
        check([x["name"] for x in A.print_device_info()] == NAMES, "list of devices")
        raises(lambda: A.set_device("no such device"), "unknown device")
        raises(lambda: A.set_device([1, 2, 3]), "three devices")
        raises(lambda: A.set_device([1, "HDMI"]), "mixed types")
        check(list(sd.default.device) == want, "devices after refused choices")
    return c["form"]


@sub(PID, gen.fd(lat=st.tuples(st.booleans(), st.booleans()), block=st.one_of(st.sampled_from([0, 64, 2048]), st.integers(1, 5000)),
                 ms=st.integers(0, 5000), s=gen.sig(min_n=4, max_n=50, max_ch=3)), quick=40,
     thorough=500)
def settings(c):
    s = gen.mk(c["s"])
    with device() as dev:
        A.set_latency(*c["lat"])
        check(list(sd.default.latency) == ["low" if v else "high" for v in c["lat"]], "latency")
        A.set_blocksize(c["block"])
        check(sd.default.blocksize == c["block"], "block size")
        A.sleep(c["ms"] / 1000 + 1e-7)
        check(dev.log == [c["ms"]], "sleep in milliseconds", dev.log)
        dev.log.clear()
        n = s.number_of_channels
        for f in (lambda: A.play(s, normalized_dbfs=3), lambda: A.play(s, duration_seconds=0),
                  lambda: A.play(s, play_channels=list(range(n))),
                  lambda: A.play_and_record(s, normalized_dbfs=0.1),
                  lambda: A.play_and_record(s, duration_seconds=-1),
                  lambda: A.play_and_record(s, rec_channels=[0]),
                  lambda: A.play_and_record(s, play_channels=list(range(n))),
                  lambda: A.play_and_record(s, play_channels=list(range(1, n + 2))),
                  lambda: A.record(0.1, 8000, rec_channels=[1, 0])):
            raises(f, "refused request")
        check(not dev.log, "a refused request plays or records nothing")
    return "ok"
