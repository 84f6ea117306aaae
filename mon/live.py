"""Digests of live objects, structural comparison of results and a table of the package's public operations.

An operation is a function ``op(ctx, pick)``, which draws its operands with ``pick(kind)`` and returns
``(name, operands, call)``.  ``operands`` are all objects, that are passed in (data sets, filters, arrays, lists, dicts) and
``call()`` executes the operation.  Calling ``call`` again has to give the same result.
"""
import hashlib
import os
import tempfile
import numpy
import sumpf
from . import filters as ft
from . import gen

FREQUENCIES = numpy.array((0.0, 0.3, 1.0, 17.0, 440.0, 1000.0, 12345.6))


def _feed(h, x, depth=0):
    if depth > 12:
        h.update(b"deep")
    elif isinstance(x, numpy.ndarray):
        h.update(f"A{x.shape}{x.dtype}".encode())
        h.update(repr(x.tolist()).encode() if x.dtype == object else numpy.ascontiguousarray(x).tobytes())
    elif isinstance(x, sumpf.Signal):
        h.update(f"Signal {type(x).__name__} {x.shape()} {x.length()} {len(x)} {x.sampling_rate()!r} {x.offset()!r} {x.labels()!r}".encode())
        _feed(h, x.channels(), depth + 1)
        for m in GETTERS:
            f = getattr(x, m, None)
            if f is not None:
                h.update(f"{m}={f()!r}".encode())
    elif isinstance(x, sumpf.Spectrum):
        h.update(f"Spectrum {type(x).__name__} {x.shape()} {x.length()} {x.resolution()!r} {x.labels()!r}".encode())
        _feed(h, x.channels(), depth + 1)
    elif isinstance(x, sumpf.Spectrogram):
        h.update(f"Spectrogram {type(x).__name__} {x.shape()} {x.resolution()!r} {x.sampling_rate()!r} {x.offset()!r} {x.labels()!r}".encode())
        _feed(h, x.channels(), depth + 1)
    elif isinstance(x, sumpf.Filter):
        h.update(f"Filter {type(x).__name__} {len(x)} {x.labels()!r}".encode())
        for t in x.transfer_functions():
            h.update(repr(t).encode())
        with numpy.errstate(all="ignore"):
            _feed(h, numpy.asarray(x(FREQUENCIES)), depth + 1)
    elif isinstance(x, dict):
        h.update(b"D")
        for k, v in x.items():
            _feed(h, k, depth + 1)
            _feed(h, v, depth + 1)
    elif isinstance(x, (list, tuple)):
        h.update(f"{type(x).__name__}{len(x)}".encode())
        for v in x:
            _feed(h, v, depth + 1)
    elif isinstance(x, reversed):
        h.update(b"iterator")
    elif callable(x) and hasattr(x, "__name__"):
        h.update(x.__name__.encode())
    else:
        h.update(repr(x).encode())


GETTERS = ("minimum_frequency", "maximum_frequency", "plateau", "symmetric", "bits", "period_length", "periods", "seed")


def digest(x):
    h = hashlib.sha1()
    _feed(h, x)
    return h.digest()


def same(a, b):
    """whether two results of the same operation are equal (up to rounding errors)"""
    if isinstance(a, sumpf.Signal):
        return isinstance(b, sumpf.Signal) and a.shape() == b.shape() and a.sampling_rate() == b.sampling_rate() and a.offset() == b.offset() and a.labels() == b.labels() and near(a.channels(), b.channels())
    if isinstance(a, sumpf.Spectrum):
        return isinstance(b, sumpf.Spectrum) and a.shape() == b.shape() and a.resolution() == b.resolution() and a.labels() == b.labels() and near(a.channels(), b.channels())
    if isinstance(a, sumpf.Spectrogram):
        return isinstance(b, sumpf.Spectrogram) and a.shape() == b.shape() and a.resolution() == b.resolution() and a.sampling_rate() == b.sampling_rate() and a.offset() == b.offset() and a.labels() == b.labels() and near(a.channels(), b.channels())
    if isinstance(a, sumpf.Filter):
        if not isinstance(b, sumpf.Filter) or a.labels() != b.labels():
            return False
        with numpy.errstate(all="ignore"):
            return near(numpy.asarray(a(FREQUENCIES)), numpy.asarray(b(FREQUENCIES)))
    if isinstance(a, BaseException):
        return type(a) is type(b)
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, numpy.ndarray) or isinstance(a, (float, complex, numpy.generic)):
        return numpy.shape(a) == numpy.shape(b) and near(numpy.asarray(a), numpy.asarray(b))
    if isinstance(a, reversed):
        return isinstance(b, reversed)
    return type(a) is type(b) and a == b


def near(a, b):
    if a.dtype.kind in "OUSb" or b.dtype.kind in "OUSb":
        return a.shape == b.shape and a.tolist() == b.tolist()
    with numpy.errstate(all="ignore"):
        return gen.exact(a, b) or gen.close(a, b, 1e-9, 1e-12 * (numpy.max(numpy.abs(b[numpy.isfinite(b)])) if numpy.isfinite(b).any() else 0.0))


# ------------------------------------------------------------------ creation of operands

def make_signal(ctx):
    r = ctx.rng
    k = r.randrange(12)
    n = r.choice((r.randint(1, 12), r.randint(10, 60)))
    sr = r.choice((48000.0, 100.0))
    if k < 6:
        return gen.signal(ctx, max_length=r.choice((12, 40)), sampling_rate=r.choice((None, 100.0)))
    if k == 6:
        sweep = r.choice((sumpf.ExponentialSweep, sumpf.InverseExponentialSweep, sumpf.LinearSweep, sumpf.InverseLinearSweep))
        return sweep(start_frequency=r.uniform(1.0, 5.0), stop_frequency=r.uniform(10.0, 40.0), sampling_rate=100.0, length=r.choice((32, 50, 101, 8200)))
    if k == 7:
        return sumpf.GaussianNoise(seed=r.randrange(100), sampling_rate=sr, length=n)
    if k == 8:
        window = r.choice((sumpf.HannWindow, sumpf.BlackmanWindow, sumpf.HammingWindow, sumpf.BartlettWindow, sumpf.KaiserWindow, sumpf.RectangularWindow, sumpf.GaussianWindow))
        return window(plateau=r.choice((0, 0, 1, 3)), sampling_rate=sr, length=n + 5, symmetric=r.random() < 0.5)
    if k == 9:
        return sumpf.MaximumLengthSequence(bits=r.randint(2, 5), seed=r.randrange(9), sampling_rate=sr)
    if k == 10:
        return sumpf.Fade(rise_interval=(1, 4), fall_interval=(n + 6, n + 8), length=n + 10, sampling_rate=sr)
    return sumpf.SineWave(frequency=r.uniform(1.0, 30.0), phase=r.uniform(-3, 3), sampling_rate=100.0, length=n)


def make_spectrum(ctx):
    r = ctx.rng
    if r.random() < 0.15:
        return sumpf.RudinShapiroNoiseSpectrum(start_frequency=2.0, resolution=1.0, length=r.randint(4, 30))
    if r.random() < 0.15:
        return sumpf.Spectrum(channels=gen.values(ctx, (r.choice((1, 2)), r.randint(1, 9))), resolution=gen.rate(ctx), labels=("real",))
    return gen.spectrum(ctx, max_length=r.choice((12, 33)))


def make_spectrogram(ctx):
    r = ctx.rng
    if r.random() < 0.15:
        return sumpf.Spectrogram(channels=gen.values(ctx, (r.choice((1, 2)), r.randint(1, 5), r.randint(1, 5))), resolution=2.0, sampling_rate=5.0, labels=("real",))
    return gen.spectrogram(ctx)


def make_bands(ctx):
    r = ctx.rng
    n = r.choice((1, 2, 3))
    I = sumpf.Bands.interpolations
    bands = [{r.uniform(1.0, 20000.0): r.uniform(0.1, 5.0) for _ in range(r.randint(1, 5))} for _ in range(n)]
    return sumpf.Bands(bands=bands if r.random() < 0.8 else bands[0], interpolations=r.choice((I.LINEAR, I.LOGARITHMIC, I.LOG_X, I.LOG_Y, I.STAIRS_LIN, I.STAIRS_LOG)), extrapolations=r.choice(list(I)), labels=gen.labels(ctx, n))


def make_filter(ctx):
    r = ctx.rng
    k = r.randrange(8)
    if k == 0:
        return make_bands(ctx)
    if k == 1:
        return sumpf.ButterworthFilter(cutoff_frequency=r.uniform(10, 5000), order=r.randint(1, 5), highpass=r.random() < 0.5)
    if k == 2:
        return r.choice((sumpf.AWeighting, sumpf.CWeighting, sumpf.DWeighting, sumpf.DerivativeFilter))()
    if k == 3:
        return r.choice((sumpf.BesselFilter(100.0, 3), sumpf.Chebyshev1Filter(300.0, 2.0, 2), sumpf.Chebyshev2Filter(300.0, 40.0, 3, True), sumpf.DelayFilter(0.001)))
    trees = ft.Trees(ctx)
    n = r.choice((1, 1, 2, 3))
    return sumpf.Filter(transfer_functions=[ft.build(trees.tree(r.randint(0, 2))) for _ in range(n)], labels=gen.labels(ctx, n))


MAKE = {"signal": make_signal, "spectrum": make_spectrum, "spectrogram": make_spectrogram, "filter": make_filter, "bands": make_bands}


# ------------------------------------------------------------------ operations

BINARY = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "**": lambda a, b: a ** b, "%": lambda a, b: a % b, "//": lambda a, b: a // b}


def random_key(r, shape):
    def one(n):
        k = r.randrange(7)
        if k == 0:
            return r.randint(0, n - 1)
        if k == 1:
            return -r.randint(1, n)
        if k == 2:
            return slice(r.uniform(0.0, 0.5), r.uniform(0.5, 1.0))
        if k == 3:
            return slice(None, r.randint(1, n))
        if k == 4:
            return slice(r.randint(0, n - 1), None)
        if k == 5:
            return slice(r.randint(0, n - 1), n + 3)
        return slice(None)
    if r.random() < 0.4:
        return one(shape[0])
    return tuple(one(n) for n in shape[0:r.randint(1, len(shape))])


def op_binary(ctx, pick):
    r = ctx.rng
    kind = r.choice(("signal", "signal", "spectrum", "spectrogram", "mixed", "mixed"))
    name = r.choice(list(BINARY))
    if kind == "mixed":
        a, b = pick("spectrogram"), pick(r.choice(("signal", "spectrum")))
    else:
        a = pick(kind)
        k = r.randrange(4)
        if k < 2:
            b = pick(kind)
        elif k == 2:
            b = r.choice((2.0, -3, 0.5, numpy.float64(1.5), 1.5 + 2j if kind != "signal" else 2.0))
        else:
            shape = a.shape()[r.randrange(len(a.shape())):]
            b = gen.values(ctx, shape)
    if r.random() < 0.5:
        a, b = b, a
    return f"{describe(a)} {name} {describe(b)}", (a, b), lambda: BINARY[name](a, b)


def op_unary(ctx, pick):
    r = ctx.rng
    a = pick(r.choice(("signal", "spectrum", "spectrogram", "filter")))
    name, f = r.choice((("abs", abs), ("neg", lambda x: -x), ("invert", lambda x: ~x), ("reversed", reversed), ("len", len), ("str", str), ("repr", repr), ("hash", hash)))
    if f is hash and not (isinstance(a, sumpf.Filter) or numpy.isfinite(a.channels()).all()):   # Python computes the hash of a NaN from its address
        name, f = "len", len
    return f"{name}({describe(a)})", (a,), lambda: f(a)


def op_compare(ctx, pick):
    r = ctx.rng
    a, b = pick(r.choice(("signal", "spectrum", "spectrogram", "filter"))), pick(r.choice(("signal", "spectrum", "spectrogram", "filter")))
    return f"{describe(a)} == {describe(b)}", (a, b), lambda: (a == b, a != b)


def op_slice(ctx, pick):
    a = pick(ctx.rng.choice(("signal", "spectrum", "spectrogram")))
    key = random_key(ctx.rng, a.shape())
    return f"{describe(a)}[{key}]", (a, key), lambda: a[key]


def op_pad(ctx, pick):
    r = ctx.rng
    a = pick(r.choice(("signal", "spectrum", "spectrogram")))
    n = r.randint(0, a.length() + 6) if a.length() < 100 else r.randint(0, 60)
    v = r.choice((0.0, 1.5))
    return f"{describe(a)}.pad({n}, {v})", (a,), lambda: a.pad(n, v)


def op_shift(ctx, pick):
    r = ctx.rng
    a = pick(r.choice(("signal", "spectrogram")))
    n = r.choice((None, r.randint(-a.length(), a.length()), r.randint(-5, 5)))
    mode = r.choice(list(a.shift_modes))
    return f"{describe(a)}.shift({n}, {mode.name})", (a,), lambda: a.shift(n, mode)


def op_getters(ctx, pick):
    r = ctx.rng
    a = pick(r.choice(("signal", "spectrum", "spectrogram", "signal", "spectrum")))
    if isinstance(a, sumpf.Signal):
        name = r.choice(("duration", "time_samples", "level", "mean", "standard_deviation", "variance", "skewness", "kurtosis", "channels", "labels", "shape", "length", "offset", "sampling_rate"))
    elif isinstance(a, sumpf.Spectrum):
        name = r.choice(("magnitude", "phase", "real", "imaginary", "frequency_samples", "conjugate", "level", "maximum_frequency", "channels", "shape"))
    else:
        name = r.choice(("magnitude", "phase", "real", "imaginary", "frequency_samples", "time_samples", "conjugate", "maximum_frequency", "duration", "channels", "number_of_frequencies"))
    return f"{describe(a)}.{name}()", (a,), lambda: getattr(a, name)()


def op_level_vs_time(ctx, pick):
    r = ctx.rng
    a = pick("signal")
    t = r.uniform(0.0, 2.2) * min(a.length(), 100) / a.sampling_rate()
    pad = r.random() < 0.5
    return f"{describe(a)}.level_vs_time({t}, {pad})", (a,), lambda: a.level_vs_time(t, pad)


def op_fft(ctx, pick):
    a = pick(ctx.rng.choice(("signal", "spectrum")))
    if isinstance(a, sumpf.Signal):
        return f"{describe(a)}.fourier_transform()", (a,), a.fourier_transform
    return f"{describe(a)}.inverse_fourier_transform()", (a,), a.inverse_fourier_transform


def pick_window(ctx, pick, n):
    r = ctx.rng
    k = r.randrange(4)
    if k == 0:
        return n
    if k == 1:
        return gen.values(ctx, (n,), "positive")
    if k == 2:
        return sumpf.HannWindow(length=n, symmetric=r.random() < 0.5)
    return gen.signal(ctx, channels=1, length=n, off=0, kind="positive")


def op_blockwise(ctx, pick):
    r = ctx.rng
    a = pick("signal")
    n = 2 * r.randint(2, 8)
    w = pick_window(ctx, pick, n)
    overlap = r.choice((0, n // 2, 0.5, n // 4, 0.25))
    pad = r.random() < 0.5
    return f"{describe(a)}.fourier_transform(window={describe(w)}, overlap={overlap}, pad={pad})", (a, w), lambda: a.fourier_transform(window=w, overlap=overlap, pad=pad)


def op_stft(ctx, pick):
    r = ctx.rng
    a = pick("signal")
    n = 2 * r.randint(2, 8)
    w = pick_window(ctx, pick, n)
    overlap = r.choice((0, n // 2, 0.5, n // 4, 0.25))
    pad = r.random() < 0.5
    if r.random() < 0.5:
        return f"{describe(a)}.short_time_fourier_transform({describe(w)}, {overlap}, {pad})", (a, w), lambda: a.short_time_fourier_transform(window=w, overlap=overlap, pad=pad)
    return f"{describe(a)} STFT and back ({describe(w)}, {overlap}, {pad})", (a, w), lambda: a.short_time_fourier_transform(window=w, overlap=overlap, pad=pad).inverse_short_time_fourier_transform(window=w, overlap=overlap)


def op_istft(ctx, pick):
    r = ctx.rng
    a = pick("spectrogram")
    w = r.choice((2 * (a.number_of_frequencies() - 1) or 2, gen.values(ctx, (2 * (a.number_of_frequencies() - 1) or 2,), "positive")))
    return f"{describe(a)}.inverse_short_time_fourier_transform({describe(w)})", (a, w), lambda: a.inverse_short_time_fourier_transform(window=w, overlap=r_half(w))


def r_half(w):
    return (w if isinstance(w, int) else len(w)) // 2


def op_convolve(ctx, pick):
    r = ctx.rng
    a = pick("signal")
    b = pick("signal") if r.random() < 0.6 else gen.values(ctx, r.choice(((3,), (1, 4), (len(a), 2))))
    if max(a.length(), b.length() if isinstance(b, sumpf.Signal) else 1) > 1000:
        a = a[:, 0:50]
        b = b[:, 0:50] if isinstance(b, sumpf.Signal) else b
    mode = r.choice(list(sumpf.Signal.convolution_modes))
    name = r.choice(("convolve", "correlate"))
    return f"{describe(a)}.{name}({describe(b)}, {mode.name})", (a, b), lambda: getattr(a, name)(b, mode)


def op_filter_binary(ctx, pick):
    r = ctx.rng
    a = pick("filter")
    b = pick("filter") if r.random() < 0.6 else r.choice((2.0, -0.5, 3, 1.0 + 2.0j, 1, 0))
    name = r.choice(("+", "-", "*", "/"))
    if r.random() < 0.5:
        a, b = b, a
    return f"{describe(a)} {name} {describe(b)}", (a, b), lambda: BINARY[name](a, b)


def op_filter_call(ctx, pick):
    r = ctx.rng
    a = pick("filter")
    f = r.choice((440.0, 0.0, 1000, numpy.array((3.0, 1.0, 0.0, 440.0)), numpy.array((1000.0,)), numpy.linspace(0.0, 100.0, 7)[::2]))
    if r.random() < 0.3:
        res, n = r.uniform(0.1, 10.0), r.randint(1, 20)
        return f"{describe(a)}.spectrum({res}, {n})", (a,), lambda: a.spectrum(resolution=res, length=n)
    return f"{describe(a)}({f})", (a, f), lambda: a(f)


def op_filter_misc(ctx, pick):
    r = ctx.rng
    a = pick("filter")
    k = r.randrange(4)
    if k == 0:
        key = r.choice((0, -1, slice(0, 1), slice(None)))
        return f"{describe(a)}[{key}]", (a,), lambda: a[key]
    if k == 1:
        return f"{describe(a)} transfer functions", (a,), lambda: sumpf.Filter(transfer_functions=a.transfer_functions(), labels=a.labels())
    b = pick("bands")
    if k == 2:
        reference, factor = r.choice((1.0, 2e-5)), r.choice((10.0, 20.0))
        return f"{describe(b)}.to_db()", (b,), lambda: b.to_db(reference, factor) if isinstance(b, sumpf.Bands) else None
    return f"{describe(b)}.from_db()", (b,), lambda: b.from_db() if isinstance(b, sumpf.Bands) else None


def op_apply_filter(ctx, pick):
    r = ctx.rng
    a, b = pick("filter"), pick(r.choice(("signal", "spectrum", "spectrogram")))
    name = r.choice(("*", "*", "/"))
    if r.random() < 0.5:
        a, b = b, a
    return f"{describe(a)} {name} {describe(b)}", (a, b), lambda: BINARY[name](a, b)


def op_block(ctx, pick):
    r = ctx.rng
    block = r.choice((sumpf.Merge, sumpf.Concatenate))
    kind = r.choice(("signal", "spectrum", "spectrogram", "filter") if block is sumpf.Merge else ("signal", "spectrogram"))
    data = [pick(kind) for _ in range(r.randint(1, 4))]

    def call():
        b = block(data[:1])
        first = b.output()
        ids = [b.add(d) for d in data]
        full = b.output()
        b.remove(ids[0])
        if len(ids) > 1:
            b.replace(ids[1], data[0])
        return (first, full, b.output())

    def call_list():
        return block(data).output()
    return f"{block.__name__}({kind} {len(data)})", (data,), r.choice((call, call_list))


def op_sweep(ctx, pick):
    r = ctx.rng
    sweep = sumpf.ExponentialSweep(start_frequency=2.0, stop_frequency=40.0, sampling_rate=100.0, length=200)
    a = pick("signal")
    if a.length() < 30:
        a = a.pad(60)
    if r.random() < 0.5:
        a = a.shift(-r.randint(0, a.length() - 1))
    harmonic, length = r.choice((1, 2, 3, 4)), r.choice((None, None, 5, 50, 100))
    return f"harmonic_impulse_response({describe(a)} offset {a.offset()}, {harmonic}, {length})", (a, sweep), lambda: sweep.harmonic_impulse_response(a, harmonic, length)


def op_derived(ctx, pick):
    r = ctx.rng
    a = pick("signal")
    k = r.randrange(4)
    if k == 0:
        return f"EnergyDecayCurve({describe(a)})", (a,), lambda: sumpf.EnergyDecayCurve(a)
    if k == 1:
        c = sumpf.EnergyDecayCurve(a.pad(max(a.length(), 12)))
        return "reverberation time", (a, c), lambda: (c.reverberation_time(1, 8), c.decay_model(0.1, 0.7))
    w = sumpf.HannWindow(length=r.randint(4, 20))
    o = r.choice((0.5, 2, numpy.array((1, 2, 3)), (0.25, 0.5)))
    if k == 2:
        return "window metrics", (w, o), lambda: (w.scaling_factor(o), w.amplitude_flatness(o), w.power_flatness(o), w.overlap_correlation(o))
    return "window metrics 2", (w,), lambda: (w.bandwidth(), w.scalloping_loss(), w.recommended_overlap())


def op_construct(ctx, pick):
    """objects, that are constructed from the caller's arrays, mappings and lists"""
    r = ctx.rng
    k = r.randrange(6)
    if k == 0:
        c, l = gen.values(ctx, (2, r.randint(1, 9))), ["a", "b", "c"][:r.randint(0, 3)]
        return "Signal(...)", (c, l), lambda: sumpf.Signal(channels=c, sampling_rate=10.0, offset=3, labels=l)
    if k == 1:
        c, l = gen.cvalues(ctx, (2, r.randint(1, 9))), ["a", "b", "c"][:r.randint(0, 3)]
        return "Spectrum(...)", (c, l), lambda: sumpf.Spectrum(channels=c, resolution=10.0, labels=l)
    if k == 2:
        c, l = gen.cvalues(ctx, (2, 3, r.randint(1, 9))), ["a", "b", "c"][:r.randint(0, 3)]
        return "Spectrogram(...)", (c, l), lambda: sumpf.Spectrogram(channels=c, resolution=10.0, labels=l)
    if k == 3:
        n = r.randint(1, 5)
        b = [{r.uniform(1, 1000): r.uniform(0.1, 2.0) for _ in range(4)} for _ in range(n)]
        i = [sumpf.Bands.interpolations.LINEAR]
        return "Bands(...)", (b, i), lambda: sumpf.Bands(bands=b, interpolations=i, extrapolations=i, labels=["x"])
    if k == 4:
        c = r.choice(([1.0, 2.0, 3.0], numpy.array((0.0, 2.0, 1.0))))
        return "Filter.Polynomial(...)", (c,), lambda: sumpf.Filter(transfer_functions=(sumpf.Filter.Polynomial(coefficients=c, transform=True),), labels=("x",))
    t = [ft.build(ft.Trees(ctx).tree(1)) for _ in range(2)]
    l = ["x"]
    return "Filter(...)", (l,), lambda: sumpf.Filter(transfer_functions=t, labels=l)


def op_persist(ctx, pick):
    r = ctx.rng
    a = pick(r.choice(("signal", "spectrum", "spectrogram", "filter", "bands")))
    if getattr(a, "length", lambda: 0)() > 1000:
        a = a[:, 0:20]
    fmt = r.choice([f for f in a.file_formats if f is not a.file_formats.AUTO])
    if isinstance(a, sumpf.Signal) and not (a.length() and numpy.max(numpy.abs(a.channels())) <= 1.0):    # libsndfile's u-law and a-law encoders read invalid memory for samples beyond +-1.0
        a = gen.signal(ctx, max_length=20) * 0.01

    def call():
        with tempfile.TemporaryDirectory(prefix="mon") as d:
            path = os.path.join(d, "x.dat")
            a.save(path, fmt)
            base = next(b for b in (sumpf.Bands, sumpf.Signal, sumpf.Spectrum, sumpf.Spectrogram, sumpf.Filter) if isinstance(a, b))
            return base.load(path)
    return f"{describe(a)} saved as {fmt}", (a,), call


# ------------------------------------------------------------------ the same objects with different parameters

def make_window(ctx):
    r = ctx.rng
    window = r.choice((sumpf.HannWindow, sumpf.BlackmanWindow, sumpf.HammingWindow, sumpf.BartlettWindow, sumpf.KaiserWindow, sumpf.RectangularWindow, sumpf.GaussianWindow))
    return window(plateau=r.choice((0, 0, 2)), sampling_rate=100.0, length=r.randint(5, 24), symmetric=r.random() < 0.5)


def make_sweep(ctx):
    r = ctx.rng
    sweep = r.choice((sumpf.ExponentialSweep, sumpf.InverseExponentialSweep))
    return sweep(start_frequency=2.0, stop_frequency=r.choice((30.0, 40.0)), sampling_rate=100.0, length=200)


def make_decay(ctx):
    r = ctx.rng
    return sumpf.EnergyDecayCurve(sumpf.GaussianNoise(seed=r.randrange(99), sampling_rate=100.0, length=r.randint(20, 40)))


REUSED = {**MAKE, "window": make_window, "sweep": make_sweep, "decay": make_decay}


def op_window(ctx, pick):
    r = ctx.rng
    w = pick("window")
    o = r.choice((0, 1, 2, w.length() // 2, w.length() - 1, w.length(), 0.25, 0.5, 0.75, 1.0, (1, 2, 3), (0.5, 0.25), numpy.array((3, 1, 2))))
    name = r.choice(("scaling_factor", "amplitude_flatness", "power_flatness", "overlap_correlation", "bandwidth"))
    if name == "bandwidth":
        k = r.choice((1, 2, 3, 8, 16))
        return f"{describe(w)}.bandwidth({k})", (w,), lambda: w.bandwidth(k)
    return f"{describe(w)}.{name}({o})", (w, o), lambda: getattr(w, name)(o)


def op_decay(ctx, pick):
    r = ctx.rng
    c = pick("decay")
    start, stop = r.choice((0, 1, 3, 0.1, 0.25)), r.choice((8, 12, -3, 0.5, 0.9))
    name = r.choice(("reverberation_time", "decay_model"))
    return f"{describe(c)}.{name}({start}, {stop})", (c,), lambda: getattr(c, name)(start, stop)


def op_harmonic(ctx, pick):
    r = ctx.rng
    sweep, a = pick("sweep"), pick("signal")
    if r.random() < 0.2:
        t = r.choice((0.0, 0.3, 1.0, 1.7))
        return f"{describe(sweep)}.instantaneous_frequency({t})", (sweep,), lambda: sweep.instantaneous_frequency(t)
    n = r.choice((100, 150))
    harmonic, length = r.choice((1, 2, 3, 4)), r.choice((None, 5, 50, 100))
    b = (a.pad(n) if a.length() < 30 else a).shift(-r.choice((0, 20, 70)))
    return f"{describe(sweep)}.harmonic_impulse_response({describe(b)}, {harmonic}, {length})", (sweep, a), lambda: sweep.harmonic_impulse_response(b, harmonic, length)


def op_statistics(ctx, pick):
    r = ctx.rng
    a = pick(r.choice(("signal", "signal", "spectrum")))
    name = r.choice(("level", "mean", "standard_deviation", "variance", "skewness", "kurtosis")) if isinstance(a, sumpf.Signal) else "level"
    single = r.choice((True, False))
    return f"{describe(a)}.{name}({single})", (a,), lambda: getattr(a, name)(single)


def op_bands(ctx, pick):
    r = ctx.rng
    b = pick("bands")
    k = r.randrange(4)
    if k < 2:
        name, reference, factor = r.choice(("to_db", "from_db")), r.choice((1.0, 2e-5, 0.5)), r.choice((10.0, 20.0))
        return f"{describe(b)}.{name}({reference}, {factor})", (b,), lambda: getattr(b, name)(reference, factor)
    a = b if k == 2 else pick("filter")
    n = r.randint(1, 3)
    key = r.choice((0, -1, 0.5, slice(0, n), slice(None, None, n), slice(None, None, -1), slice(-n, None), slice(0.0, 0.5)))
    return f"{describe(a)}[{key}]", (a,), lambda: a[key]


def op_buffer(ctx, pick):
    """arguments are passed in arrays, which the caller has overwritten since the last call"""
    r = ctx.rng
    n = r.choice((3, 4, 8))
    values = gen.values(ctx, (n,), "positive")
    buffer = pick("buffer") if r.random() < 0.9 else numpy.zeros(8)
    b = buffer[0:n]
    k = r.randrange(7)
    if k == 0:
        f, name, call = pick("filter"), "filter(buffer)", lambda a: a(b)
    elif k == 1:
        mode = r.choice((sumpf.Signal.convolution_modes.FULL, sumpf.Signal.convolution_modes.SPECTRUM))
        f, name, call = pick("signal"), f"convolve(buffer, {mode.name})", lambda a: a[:, 0:50].convolve(b, mode)
    elif k == 2:
        n, b = 8, buffer[0:8]
        values = gen.values(ctx, (n,), "positive")
        f, name, call = pick("signal"), "short_time_fourier_transform(buffer)", lambda a: a[:, 0:50].short_time_fourier_transform(window=b, overlap=4)
    elif k == 3:
        n, b = 8, buffer[0:8]
        values = gen.values(ctx, (n,), "positive")
        f, name, call = pick("signal"), "fourier_transform(buffer)", lambda a: a[:, 0:50].fourier_transform(window=b, overlap=4)
    elif k == 4:
        n, b = 3, buffer[0:3]
        values = numpy.floor(gen.values(ctx, (n,), "positive") * 3) % 4
        f, name, call = pick("window"), "metrics(buffer)", lambda a: (a.scaling_factor(b.astype(int)), a.amplitude_flatness(b.astype(int)))
    elif k == 5:
        f, name, call = pick("signal"), "correlate(buffer)", lambda a: a[:, 0:50].correlate(b)
    else:
        name = r.choice(("+", "*", "-", "/"))
        f, call = pick(r.choice(("signal", "spectrum"))), lambda a: BINARY[name](b.reshape(-1, 1)[0:1], a)

    def run():
        b[...] = values
        return call(f)
    return f"{describe(f)} {name}", (f,), run


REUSE_OPS = (op_binary, op_slice, op_pad, op_shift, op_getters, op_statistics, op_level_vs_time, op_blockwise, op_stft, op_istft, op_convolve, op_filter_binary, op_filter_call, op_filter_call,
             op_bands, op_bands, op_apply_filter, op_window, op_window, op_decay, op_harmonic, op_harmonic, op_buffer, op_buffer, op_persist, op_compare, op_unary)


def describe(x):
    return gen.describe(x)[:160]


OPS = (op_binary, op_binary, op_binary, op_unary, op_compare, op_slice, op_slice, op_pad, op_shift, op_getters, op_level_vs_time, op_fft, op_blockwise, op_stft,
       op_istft, op_convolve, op_filter_binary, op_filter_binary, op_filter_call, op_filter_misc, op_apply_filter, op_block, op_sweep, op_derived, op_construct)


def execute(call):
    """the result or the exception of an operation"""
    try:
        with numpy.errstate(all="ignore"):
            return call()
    except MemoryError:
        raise
    except Exception as e:      # pylint: disable=broad-except
        return e


def kind_of(x):
    for name, c in (("bands", sumpf.Bands), ("signal", sumpf.Signal), ("spectrum", sumpf.Spectrum), ("spectrogram", sumpf.Spectrogram), ("filter", sumpf.Filter)):
        if isinstance(x, c):
            return name
    return None


class Pool:
    """the living objects of a history"""

    def __init__(self, ctx, per_kind=2):
        self.ctx = ctx
        self.objects = []
        self.digests = []
        for kind in MAKE:
            for _ in range(per_kind):
                self.add(MAKE[kind](ctx))

    def add(self, x):
        if kind_of(x) is not None and (not hasattr(x, "shape") or min(x.shape()) > 0):
            self.objects.append(x)
            self.digests.append(digest(x))

    def pick(self, kind):
        candidates = [o for o in self.objects if kind_of(o) == kind or kind == "filter" and kind_of(o) == "bands"]
        return self.ctx.rng.choice(candidates[-6:] + candidates[:3])

    def changed(self):
        for i, o in enumerate(self.objects):
            if digest(o) != self.digests[i]:
                return i
        return None
