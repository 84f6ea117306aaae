"""Random generators for the workloads and comparison helpers for the oracles."""
import math
import numpy
import sumpf

WORDS = ("", "a", "left", "Right channel", "Ünïcödé µ", "with \"quotes\"", "comma, semi;colon", "'", "back\\slash", "tab\tx",
         "Sum", "ch #1", "(1, 2)", "日本", "{curly}", "x" * 40, "\u2028", "0", "None")


def labels(ctx, n, safe=False):
    r = ctx.rng
    words = [w for w in WORDS if "\t" not in w and "\\" not in w and "\u2028" not in w] if safe else WORDS
    return tuple(r.choice(words) for _ in range(n))


def values(ctx, shape, kind="nice"):
    """real sample values; "nice" values are non-zero, distinct and moderately sized"""
    size = int(numpy.prod(shape))
    g = ctx.np
    if kind == "nice":
        v = g.uniform(0.25, 4.0, size) * g.choice((-1.0, 1.0), size)
    elif kind == "positive":
        v = g.uniform(0.25, 4.0, size)
    elif kind == "int":
        v = g.integers(-9, 10, size).astype(float)
    elif kind == "wide":
        v = g.choice((-1.0, 1.0), size) * 10.0 ** g.uniform(-12, 12, size)
    elif kind == "special":
        v = g.choice(numpy.array((0.0, -0.0, 1.0, -1.0, 0.5, 2.0, -3.0, 1e-300, 1e300, 5e-324)), size)
    else:
        raise ValueError(kind)
    return v.reshape(shape)


def cvalues(ctx, shape, kind="nice"):
    size = int(numpy.prod(shape))
    g = ctx.np
    if kind in ("nice", "positive"):
        return (g.uniform(0.25, 4.0, size) * numpy.exp(1j * g.uniform(-3.0, 3.0, size))).reshape(shape)
    return values(ctx, shape, kind) + 1j * values(ctx, shape, kind)


def rate(ctx):
    return ctx.rng.choice((48000.0, 44100.0, 8000.0, 1.0, 2.5, 48000, 96000.0, 0.1, 11025.5))


def offset(ctx, span=12):
    if getattr(ctx, "big", 0):
        span = ctx.rng.choice((span, 1000, 10000) + ((2 ** 31 + 5,) if ctx.far else ()))
    return ctx.rng.choice((0, 0, ctx.rng.randint(-span, span), ctx.rng.randint(-span, span)))


SIZES = (31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4096, 4097,
         5000, 8191, 8192, 8193, 10000, 16384, 16385, 20011, 32768, 32769, 40000, 48000, 65535, 65536, 65537, 100003, 131072, 131073)


def big(function, limit, far=False):
    """a scenario, whose data sets are large (up to the limit): implementations can deal with them block-wise or in other special ways"""
    def f(ctx):
        ctx.big, ctx.far = limit, far
        ctx.event("large data sets")
        return function(ctx)
    f.__name__ = function.__name__
    return f


def extent(ctx, bound, low=1, divide=1):
    """a random length, that is large in the scenarios for large data sets"""
    limit = getattr(ctx, "big", 0) // divide
    if limit and getattr(ctx, "many", False):
        limit = max(31, limit // 30)
    if limit and ctx.rng.random() < 0.85:
        return ctx.rng.choice([n for n in SIZES if n <= limit] or [limit])
    return ctx.rng.randint(low, bound)


def size(ctx, length, limit=None):
    """the given length or a large one in the scenarios for large data sets"""
    if getattr(ctx, "big", 0) and ctx.rng.random() < 0.85:
        return ctx.rng.choice([n for n in SIZES if n <= min(ctx.big, limit or ctx.big)])
    return length


def count(ctx, *options):
    """a random number of channels, that is large in some of the scenarios for large data sets"""
    ctx.many = bool(getattr(ctx, "big", 0)) and ctx.rng.random() < 0.3
    if ctx.many:
        return ctx.rng.choice((5, 7, 8, 9, 10, 16, 17, 32, 33, 65))
    return ctx.rng.choice(options)


def signal(ctx, channels=None, length=None, max_length=12, off=None, kind="nice", sampling_rate=None, lab=None):
    r = ctx.rng
    c = channels if channels is not None else count(ctx, 1, 1, 2, 3, 4)
    l = length if length is not None else extent(ctx, max_length)
    return sumpf.Signal(channels=values(ctx, (c, l), kind),
                        sampling_rate=rate(ctx) if sampling_rate is None else sampling_rate,
                        offset=offset(ctx) if off is None else off,
                        labels=labels(ctx, c) if lab is None else lab)


def spectrum(ctx, channels=None, length=None, max_length=12, kind="nice", resolution=None, lab=None):
    r = ctx.rng
    c = channels if channels is not None else count(ctx, 1, 1, 2, 3, 4)
    l = length if length is not None else extent(ctx, max_length)
    return sumpf.Spectrum(channels=cvalues(ctx, (c, l), kind),
                          resolution=rate(ctx) if resolution is None else resolution,
                          labels=labels(ctx, c) if lab is None else lab)


def spectrogram(ctx, channels=None, frequencies=None, length=None, max_length=6, off=None, kind="nice", resolution=None,
                sampling_rate=None, lab=None):
    r = ctx.rng
    c = channels if channels is not None else count(ctx, 1, 1, 2, 3)
    f = frequencies if frequencies is not None else extent(ctx, max_length, divide=40)
    l = length if length is not None else extent(ctx, max_length, divide=20)
    return sumpf.Spectrogram(channels=cvalues(ctx, (c, f, l), kind),
                             resolution=rate(ctx) if resolution is None else resolution,
                             sampling_rate=rate(ctx) if sampling_rate is None else sampling_rate,
                             offset=offset(ctx, 6) if off is None else off,
                             labels=labels(ctx, c) if lab is None else lab)


def close(a, b, rtol=1e-9, atol=1e-12):
    """elementwise comparison; non-finite values have to be non-finite in both"""
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    fa, fb = numpy.isfinite(a), numpy.isfinite(b)
    if (fa != fb).any():
        return False
    return bool((numpy.abs(a[fa] - b[fa]) <= atol + rtol * numpy.maximum(numpy.abs(a[fa]), numpy.abs(b[fa]))).all())


def close_scaled(a, b, tol=1e-10):
    """comparison relative to the largest value (for transforms)"""
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (numpy.isfinite(a).all() and numpy.isfinite(b).all()):
        return False
    scale = max(numpy.max(numpy.abs(b)), 1e-300)
    return bool(numpy.max(numpy.abs(a - b)) <= tol * scale)


def exact(a, b):
    a, b = numpy.asarray(a), numpy.asarray(b)
    return a.shape == b.shape and bool(((a == b) | (numpy.isnan(a) & numpy.isnan(b))).all()) if a.size else a.shape == b.shape


def describe(x):
    if isinstance(x, sumpf.Signal):
        return f"Signal(shape={x.shape()}, sr={x.sampling_rate()}, offset={x.offset()}, labels={x.labels()})"
    if isinstance(x, sumpf.Spectrum):
        return f"Spectrum(shape={x.shape()}, res={x.resolution()}, labels={x.labels()})"
    if isinstance(x, sumpf.Spectrogram):
        return f"Spectrogram(shape={x.shape()}, res={x.resolution()}, sr={x.sampling_rate()}, offset={x.offset()}, labels={x.labels()})"
    if isinstance(x, numpy.ndarray):
        return f"array{x.shape}{x.dtype}"
    s = repr(x)
    return s if len(s) < 200 else s[:200] + "..."


def diff(a, b):
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    with numpy.errstate(all="ignore"):
        d = numpy.abs(a - b)
    d = numpy.where(numpy.isnan(d), numpy.inf, d)
    d = numpy.where((a == b), 0.0, d)
    i = numpy.unravel_index(int(numpy.argmax(d)), a.shape)
    return f"first/largest difference at {tuple(int(j) for j in i)}: got {a[i]!r}, expected {b[i]!r}"


def warm(ctx, *calls, probability=0.3):
    """uses objects in other ways before the operation, that is judged: its result must not depend on that"""
    if ctx.rng.random() < probability:
        for call in ctx.rng.sample(calls, min(len(calls), ctx.rng.choice((1, 2)))):
            try:
                with numpy.errstate(all="ignore"):
                    call()
            except MemoryError:
                raise
            except Exception:   # pylint: disable=broad-except; only the operation, that follows, is judged
                pass
        ctx.event("objects used before")
