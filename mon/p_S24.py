"""S24: axes, accessors and derived data are consistent."""
import cmath
import numpy
import sumpf
from . import gen

PROPERTY = "S24"
RULE = ("random signals, spectrums and spectrograms (all dtypes, special values, views of other arrays, results of other operations, empty ones) are created and every accessor and derived data set is "
        "compared, sample by sample, to the definition computed with Python's scalar arithmetic; data sets and filters are created with too few, too many and missing labels.  Distinct by type, kind of the "
        "samples, origin of the data set, length class, sign of the offset")
ASSUMPTIONS = ["the samples of signals are real"]
REQUIRED = ["Signal", "Spectrum", "Spectrogram", "negative offset", "one sample", "no sample", "complex samples", "integer samples", "special values", "view", "result of an operation", "missing labels", "surplus labels",
            "no labels", "labels of filters", "zero divided", "derived class"]


def complex_close(got, want, tol=1e-12):
    if cmath.isnan(want) or cmath.isnan(got):
        return cmath.isnan(want) == cmath.isnan(got)
    if cmath.isinf(want) or cmath.isinf(got):
        return cmath.isinf(want) == cmath.isinf(got)
    return abs(got - want) <= tol * abs(want)


def axis(ctx, what, got, count, first, step):
    """the positions (first + i) * step"""
    ctx.check(isinstance(got, numpy.ndarray) and got.shape == (count,), lambda: f"{what} has the shape {numpy.shape(got)} instead of ({count},)")
    scale = max(abs(first), abs(first + count), 1)
    for i in range(count):
        ctx.check(abs(got[i] - (first + i) * step) <= 1e-13 * scale * step, lambda: f"{what}[{i}] is {got[i]!r} instead of {(first + i) * step!r}")


def samples(ctx, what, got, source, function, kind=complex):
    ctx.check(numpy.shape(got) == numpy.shape(source), lambda: f"{what} has the shape {numpy.shape(got)} instead of {numpy.shape(source)}")
    tol = 1e-6 if source.dtype in (numpy.float32, numpy.complex64) else 1e-12
    for g, s in zip(numpy.asarray(got).flat, numpy.asarray(source).flat):
        try:
            w = function(kind(s))
        except (OverflowError, ZeroDivisionError):
            ctx.event("undefined sample")
            continue
        ctx.check(complex_close(complex(g), complex(w), tol), lambda: f"{what}: {g!r} instead of {w!r} for the sample {s!r}")


def meta(ctx, what, got, a, offset=None):
    kind = sumpf.Signal if isinstance(a, sumpf.Signal) else (sumpf.Spectrum if isinstance(a, sumpf.Spectrum) else sumpf.Spectrogram)
    ctx.check(isinstance(got, kind) and got.labels() == a.labels() and got.shape() == a.shape(), lambda: f"{what}: {gen.describe(a)} became {gen.describe(got)}")
    for m in ("sampling_rate", "resolution", "offset"):
        if hasattr(a, m):
            w = getattr(a, m)() if m != "offset" or offset is None else offset
            ctx.check(getattr(got, m)() == w, lambda: f"{what}: {m} is {getattr(got, m)()} instead of {w}: {gen.describe(a)}")


def array(ctx, shape, complex_):
    r = ctx.rng
    kind = r.choice(("nice", "nice", "int", "wide", "special"))
    a = gen.values(ctx, shape, kind)
    if complex_ and r.random() < 0.8:
        a = a + 1j * gen.values(ctx, shape, kind)
        ctx.event("complex samples")
        if r.random() < 0.1 and kind in ("nice", "int"):
            a = a.astype(numpy.complex64)
    elif kind == "int" and r.random() < 0.5:
        a = a.astype(int)
        ctx.event("integer samples")
    elif kind in ("nice", "int") and r.random() < 0.1:
        a = a.astype(numpy.float32)
    if kind == "special":
        ctx.event("special values")
    origin = r.choice(("array", "array", "view", "fortran", "transposed"))
    if origin == "view":
        b = numpy.zeros(tuple(2 * s + 1 for s in shape), dtype=a.dtype)
        view = b[tuple(slice(1, 2 * s + 1, 2) for s in shape)]
        view[...] = a
        a = view
        ctx.event("view")
    elif origin == "fortran":
        a = numpy.asfortranarray(a)
    elif origin == "transposed":
        a = a[..., ::-1]
    return a, f"{kind} {a.dtype} {origin}"


def make(ctx, cls):
    r = ctx.rng
    c = gen.count(ctx, 1, 1, 2, 3)
    l = r.choice((1, 2, 3, r.randint(1, 30), r.randint(1, 30), 0 if r.random() < 0.3 else 5)) if not getattr(ctx, "big", 0) else gen.extent(ctx, 30)
    lab = gen.labels(ctx, c)
    off = r.choice((0, r.randint(-20, 20), r.randint(-2000000, 2000000)))
    if cls is sumpf.Signal:
        a, k = array(ctx, (c, l), False)
        x = sumpf.Signal(a, sampling_rate=gen.rate(ctx), offset=off, labels=lab)
    elif cls is sumpf.Spectrum:
        a, k = array(ctx, (c, l), True)
        x = sumpf.Spectrum(a, resolution=gen.rate(ctx), labels=lab)
    else:
        a, k = array(ctx, (c, r.randint(1, 6), l), True)
        x = sumpf.Spectrogram(a, resolution=gen.rate(ctx), sampling_rate=gen.rate(ctx), offset=off, labels=lab)
    return x, a, k, lab


def signal(ctx, s, a):
    what = gen.describe(s)
    samples(ctx, f"abs({what})", abs(s).channels(), a, abs, float)
    meta(ctx, "abs", abs(s), s)
    samples(ctx, f"-{what}", (-s).channels(), a, lambda v: -v, float)
    meta(ctx, "negative", -s, s)


def spectrum(ctx, s, a):
    what = gen.describe(s)
    samples(ctx, f"{what}.magnitude()", s.magnitude(), a, abs)
    samples(ctx, f"{what}.phase()", s.phase(), a, cmath.phase)
    samples(ctx, f"{what}.real()", s.real(), a, lambda v: v.real)
    samples(ctx, f"{what}.imaginary()", s.imaginary(), a, lambda v: v.imag)
    samples(ctx, f"abs({what})", abs(s).channels(), a, abs)
    meta(ctx, "abs", abs(s), s)
    samples(ctx, f"-{what}", (-s).channels(), a, lambda v: -v)
    meta(ctx, "negative", -s, s)
    samples(ctx, f"{what}.conjugate()", s.conjugate().channels(), a, lambda v: v.conjugate())
    meta(ctx, "conjugate", s.conjugate(), s)
    if isinstance(s, sumpf.Spectrum):
        with numpy.errstate(all="ignore"):
            inverse = ~s
        meta(ctx, "inverse", inverse, s)
        if (numpy.asarray(a) == 0.0).any():
            ctx.event("zero divided")
        # quotients close to the limits of the number range are not defined
        for g, v in zip(inverse.channels().flat, numpy.asarray(a).flat):
            v = complex(v)
            if 1e-150 < abs(v) < 1e150:
                w = v.conjugate() / (v.real ** 2 + v.imag ** 2)
                ctx.check(abs(g - w) <= (1e-6 if a.dtype in (numpy.float32, numpy.complex64) else 1e-12) * abs(w), lambda: f"~{what}: {g!r} instead of {w!r} for the sample {v!r}")


def common(ctx, x, a, lab):
    what = gen.describe(x)
    ctx.check(len(x) == a.shape[0] and x.length() == a.shape[-1] and tuple(x.shape()) == a.shape, lambda: f"{what}: len() {len(x)}, length() {x.length()}, shape() {x.shape()} instead of {a.shape}")
    ctx.check(gen.exact(x.channels(), a), lambda: f"{what}.channels(): {gen.diff(x.channels(), a)}")
    ctx.check(x.labels() == lab and isinstance(x.labels(), tuple), lambda: f"{what}: labels {x.labels()!r} instead of {lab}")
    ctx.check(isinstance(str(x), str) and str(a.shape[-1]) in str(x), lambda: f"str({what}) is {x!s}")
    n = a.shape[-1]
    if hasattr(x, "sampling_rate"):
        axis(ctx, f"{what}.time_samples()", x.time_samples(), n, x.offset(), 1.0 / x.sampling_rate())
        ctx.check(complex_close(x.duration(), n / x.sampling_rate()), lambda: f"{what}: the duration is {x.duration()}")
        if x.offset() < 0:
            ctx.event("negative offset")
    if hasattr(x, "resolution"):
        f = n if isinstance(x, sumpf.Spectrum) else a.shape[1]
        if isinstance(x, sumpf.Spectrogram):
            ctx.check(x.number_of_frequencies() == f, lambda: f"{what}: number_of_frequencies() is {x.number_of_frequencies()}")
        if f:
            ctx.check(complex_close(x.maximum_frequency(), (f - 1) * x.resolution()), lambda: f"{what}: the maximum frequency is {x.maximum_frequency()}")
        axis(ctx, f"{what}.frequency_samples()", x.frequency_samples(), f, 0, x.resolution())
    if n == 1:
        ctx.event("one sample")
    if n == 0:
        ctx.event("no sample")
    ctx.event("Signal" if isinstance(x, sumpf.Signal) else ("Spectrum" if isinstance(x, sumpf.Spectrum) else "Spectrogram"))


def accessors(ctx):
    r = ctx.rng
    x, a, k, lab = make(ctx, r.choice((sumpf.Signal, sumpf.Spectrum, sumpf.Spectrogram)))
    ctx.note(f"{gen.describe(x)} {k}")
    common(ctx, x, a, lab)
    (signal if isinstance(x, sumpf.Signal) else spectrum)(ctx, x, a)
    ctx.sign(type(x).__name__, k, min(x.length(), 3), hasattr(x, "offset") and (x.offset() > 0) - (x.offset() < 0))


def derived(ctx):
    """the same for the results of other operations and for the derived classes"""
    r = ctx.rng
    if r.random() < 0.4:
        n = r.randint(1, 40)
        name, x = r.choice((("HannWindow", lambda: sumpf.HannWindow(length=n)), ("ConstantSignal", lambda: sumpf.ConstantSignal(r.uniform(-1, 1), length=n)), ("SineWave", lambda: sumpf.SineWave(length=n)),
                            ("UniformNoise", lambda: sumpf.UniformNoise(length=n, seed=2)), ("ExponentialSweep", lambda: sumpf.ExponentialSweep(length=n + 3)), ("ConstantSpectrum", lambda: sumpf.ConstantSpectrum(1 - 2j, length=n)),
                            ("ConstantSpectrogram", lambda: sumpf.ConstantSpectrogram(1 - 2j, length=n, number_of_frequencies=3)), ("Fade", lambda: sumpf.Fade(length=n)),
                            ("RudinShapiroNoiseSpectrum", lambda: sumpf.RudinShapiroNoiseSpectrum(length=n)), ("EnergyDecayCurve", lambda: sumpf.EnergyDecayCurve(gen.signal(ctx)))))
        try:
            x = x()
        except AttributeError as e:
            raise RuntimeError(f"{name}: {e}") from e
        ctx.event("derived class")
    else:
        x, _, _, _ = make(ctx, r.choice((sumpf.Signal, sumpf.Spectrum, sumpf.Spectrogram)))
        name = []
        for _ in range(r.randint(1, 3)):
            k = r.choice(("slice", "shift", "negative", "pad", "add", "fft", "channel", "reversed"))
            with numpy.errstate(all="ignore"):
                if k == "slice":
                    x = x[:, r.randint(0, 2):]
                elif k == "channel":
                    x = x[r.randrange(len(x))]
                elif k == "shift" and hasattr(x, "shift"):
                    x = x.shift(r.randint(-5, 5), r.choice(list(sumpf.Signal.shift_modes)))
                elif k == "negative":
                    x = -x
                elif k == "pad":
                    x = x.pad(r.randint(1, 20))
                elif k == "add":
                    x = x + r.choice((x, 1.5))
                elif k == "fft" and isinstance(x, sumpf.Signal) and x.length():
                    x = x.fourier_transform()
                elif k == "reversed" and isinstance(x, sumpf.Signal):
                    x = reversed(x)
            name.append(k)
        name = "-".join(name)
        ctx.event("result of an operation")
    a = numpy.array(x.channels())
    common(ctx, x, a, x.labels())
    ctx.check(len(x.labels()) == len(x) and all(isinstance(l, str) for l in x.labels()), lambda: f"{gen.describe(x)} has the labels {x.labels()}")
    (signal if isinstance(x, sumpf.Signal) else spectrum)(ctx, x, a)
    ctx.note(f"{name}: {gen.describe(x)}")
    ctx.sign(name, type(x).__name__)


def labels(ctx):
    r = ctx.rng
    c = r.randint(1, 5)
    n = r.randint(0, 8)
    given = list(gen.labels(ctx, n))
    k = r.choice(("list", "tuple", "none", "default"))
    want = tuple((given + [""] * c)[0:c])
    arguments = {}
    if k == "none":
        arguments["labels"] = None
    elif k != "default":
        arguments["labels"] = given if k == "list" else tuple(given)
    if k in ("none", "default"):
        want = ("",) * c
        ctx.event("no labels")
    elif n < c:
        ctx.event("missing labels")
    elif n > c:
        ctx.event("surplus labels")
    which = r.choice(("Signal", "Spectrum", "Spectrogram", "Filter", "Bands"))
    if which == "Signal":
        x = sumpf.Signal(gen.values(ctx, (c, 4)), **arguments)
    elif which == "Spectrum":
        x = sumpf.Spectrum(gen.cvalues(ctx, (c, 4)), **arguments)
    elif which == "Spectrogram":
        x = sumpf.Spectrogram(gen.cvalues(ctx, (c, 3, 4)), **arguments)
    elif which == "Filter":
        x = sumpf.Filter([sumpf.Filter.Constant(float(i)) for i in range(c)], **arguments)
        want = x.labels() if k in ("none", "default") else want
        ctx.event("labels of filters")
    else:
        if k == "none":
            return      # not documented for bands
        x = sumpf.Bands([{1.0: 2.0}] * c, **arguments)
        if n < c or k == "default":     # bands repeat the first label
            want = tuple(given if k != "default" else ["Bands"])
            want += ((want or ("Bands",))[0],) * (c - len(want))
    what = f"{which} with {c} channels and the labels {arguments}"
    ctx.check(x.labels() == want and isinstance(x.labels(), tuple) and len(x.labels()) == len(x) == c, lambda: f"{what} has the labels {x.labels()!r}")
    if k == "list":
        given.append("changed")
        if given:
            given[0] = "changed"
        ctx.check(x.labels() == want, lambda: f"{what}: the labels change with the list, that has been passed")
    ctx.sign(which, k, (n > c) - (n < c))


def repeated(ctx):
    """the accessors do not copy or change what they return between calls"""
    r = ctx.rng
    x, a, _, _ = make(ctx, r.choice((sumpf.Signal, sumpf.Spectrum, sumpf.Spectrogram)))
    before = numpy.array(x.channels())
    for m in ("time_samples", "frequency_samples", "magnitude", "phase", "real", "imaginary"):
        if hasattr(x, m):
            first = numpy.array(getattr(x, m)())
            got = getattr(x, m)()
            ctx.check(gen.exact(first, got), lambda: f"{gen.describe(x)}.{m}() gives different results")
            if m in ("time_samples", "frequency_samples", "magnitude", "phase"):    # views are allowed for the real and imaginary part
                got *= 0
                ctx.check(gen.exact(getattr(x, m)(), first), lambda: f"{gen.describe(x)}.{m}() returns its internal state")
    ctx.check(gen.exact(x.channels(), before), lambda: f"the samples of {gen.describe(x)} have been modified")


SCENARIOS = [("accessors", accessors, 3000, 30000), ("derived", derived, 2000, 20000), ("labels", labels, 600, 6000), ("repeated", repeated, 400, 4000),
             ("large accessors", gen.big(accessors, 50000, far=True), 5, 50)]
