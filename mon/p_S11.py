"""S11: applying a filter equals multiplying by its sampled response."""
import numpy
import sumpf
from . import filters as ft
from . import gen
from . import p_S10
from . import p_S12

PROPERTY = "S11"
RULE = ("random filters (transfer function trees, rolloff, delay, derivative, weighting and bands filters, with one to three channels) are multiplied with random spectrums, spectrograms and signals on either side; every bin of every channel and "
        "frame is compared to the data's bin times the response from an independent evaluation of the filter at index*resolution; for signals, the discrete Fourier sum at the true times, the multiplication and the inverse sum are computed "
        "explicitly; delays by whole samples have to rotate the samples exactly.  Sampled responses are compared bin by bin.  Distinct by filter kind, data type, channel counts, side and size class")
ASSUMPTIONS = ["filters and data sets with different channel counts are combined only, if one of them has a single channel", "signals have an even, non-zero number of samples (the inverse Fourier transform of the package yields even lengths)",
               "the response at 0 Hz is the one, that the filter returns for the frequency 0.0"]
REQUIRED = ["spectrum bin compared", "spectrogram bin compared", "signal sample compared", "sampled response compared", "sampled with other parameters", "filter on the left", "filter on the right", "one filter for many channels", "many filters for one channel", "a filter per channel",
            "offset", "delay by whole samples", "default sampling", "chain of filters", "other operators refused", "tree filter", "rolloff filter", "bands filter", "weighting filter", "delay filter", "derivative filter", "zero length"]


def make(ctx, n, f0):
    """(filter, function that returns the responses (values, errors) at an array of frequencies, one pair per channel; kind)"""
    r = ctx.rng
    k = r.choice(("tree", "tree", "tree", "tree", "rolloff", "bands", "weighting", "delay", "derivative"))
    ctx.event(f"{k} filter")
    if k == "tree":
        g = ft.Trees(ctx, f0=f0)
        trees = [g.tree(r.randint(0, 2)) for _ in range(n)]
        filter_ = sumpf.Filter(transfer_functions=tuple(ft.build(t) for t in trees), labels=gen.labels(ctx, n))
        return filter_, lambda f: [ft.evaluate(t, f) for t in trees], k + " " + ft.shape(trees[0])
    if k == "bands":
        bands = [{f0 * 10.0 ** r.uniform(-1, 1): r.uniform(0.2, 5.0) for _ in range(r.randint(1, 5))} for _ in range(n)]
        i, e = [r.choice(list(p_S12.I)) for _ in range(n)], [r.choice(list(p_S12.I)) for _ in range(n)]

        def responses(f):
            result = []
            for b, x, y in zip(bands, i, e):
                v = [p_S12.value(b, x, y, float(z)) for z in f]
                v = [(numpy.nan, 0.0) if w is None or isinstance(w[0], list) and len(w[0]) != 1 else (w[0][0] if isinstance(w[0], list) else w[0], w[1]) for w in v]
                result.append((numpy.array([w[0] for w in v]), numpy.array([w[1] for w in v])))
            return result
        return sumpf.Bands(bands, i, e, gen.labels(ctx, n)), responses, k
    if k == "delay":
        t = r.uniform(-3.0, 3.0) / f0
        one, value = sumpf.DelayFilter(t), lambda f: numpy.exp(-2j * numpy.pi * f * t)
    elif k == "derivative":
        one, value = sumpf.DerivativeFilter(), lambda f: 2j * numpy.pi * f
    elif k == "weighting":
        w = r.choice("ABCDU")
        one, value = p_S10.WEIGHTINGS[w](), lambda f: (p_S10.weighting_reference(w, f) / p_S10.weighting_reference(w, [1000.0])[0]).astype(complex)
    else:
        cls = r.choice((sumpf.ButterworthFilter, sumpf.BesselFilter, sumpf.Chebyshev1Filter, sumpf.Chebyshev2Filter))
        order, high = r.randint(1, 6), r.random() < 0.5
        one = cls(cutoff_frequency=f0, order=order, highpass=high)

        def value(f):
            x = -f0 / f if high else f / f0
            if cls is sumpf.BesselFilter:
                return numpy.array([p_S10.bessel(order, float(y))[0] for y in x])
            ripple = {sumpf.Chebyshev1Filter: 3.0, sumpf.Chebyshev2Filter: 60.0}.get(cls, 0.0)
            poles, zeros = p_S10.poles_and_zeros({sumpf.ButterworthFilter: "butterworth", sumpf.Chebyshev1Filter: "chebyshev1"}.get(cls, "chebyshev2"), order, ripple)
            return numpy.array([p_S10.rational(poles, zeros, float(y), ripple)[0] for y in x])
    if n > 1:
        factors = [r.choice((1.0, -2.0, 0.5)) for _ in range(n)]
        many = sumpf.Filter(transfer_functions=tuple((one * x).transfer_functions()[0] for x in factors), labels=gen.labels(ctx, n))
    else:
        factors, many = [1.0], one
    return many, lambda f: [(x * value(f), 1e-11 * abs(x * value(f))) for x in factors], k


def response(filter_, reference, resolution, length):
    """(values, errors) with the shape (channels, length); at 0 Hz the response of the filter itself"""
    f = numpy.arange(1, length) * resolution
    n = len(filter_)
    v, e = numpy.zeros((n, length), dtype=complex), numpy.zeros((n, length))
    if length:
        with numpy.errstate(all="ignore"):
            v[:, 0] = filter_(0.0)
            for c, (a, b) in enumerate(reference(f)):
                v[c, 1:], e[c, 1:] = a, 64.0 * b
    return v, e


def apply(ctx, filter_, data):
    if ctx.rng.random() < 0.5:
        ctx.event("filter on the left")
        return filter_ * data, "left"
    ctx.event("filter on the right")
    return data * filter_, "right"


def counts(ctx):
    n, m = ctx.rng.choice(((1, 1), (1, 1), (1, 2), (1, 3), (2, 1), (3, 1), (2, 2), (3, 3)) if not getattr(ctx, "big", 0) else ((1, 1), (1, 9), (9, 1), (10, 10), (2, 2), (17, 17)))
    if n == m:
        ctx.event("a filter per channel")
    elif n == 1:
        ctx.event("one filter for many channels")
    else:
        ctx.event("many filters for one channel")
    return n, m


def compare(ctx, got, expected, error, what, event):
    """elementwise; points, at which the response is not well defined, are not judged"""
    with numpy.errstate(all="ignore"):
        usable = numpy.isfinite(expected) & numpy.isfinite(error) & (error <= 1e-6 * abs(expected) + 1e-300) & (abs(expected) < 1e150)
        ok = (abs(got - expected) <= error + 2e-13 * abs(expected)) | ~usable
    ctx.check(bool(ok.all()), lambda: f"{what}: {got[~ok][0]!r} instead of {expected[~ok][0]!r} at {tuple(int(i[0]) for i in numpy.nonzero(~ok))}")
    if usable.any():
        ctx.event(event, int(usable.sum()))


def bins(ctx):
    """spectrums and spectrograms"""
    r = ctx.rng
    n, m = counts(ctx)
    length = r.choice((0, 1, 2, 3, r.randint(4, 20), r.randint(4, 20), r.randint(4, 20))) if not getattr(ctx, "big", 0) else gen.extent(ctx, 20)
    resolution = r.choice((1.0, 11.71875, 10.0 ** r.uniform(-2, 3), 7, 48000.0 / 4096))
    f0 = resolution * 10.0 ** r.uniform(0, 0.8)
    filter_, reference, kind = make(ctx, n, f0)
    h, error = response(filter_, reference, resolution, length)
    if length == 0:
        ctx.event("zero length")
    if r.random() < 0.5:
        data = gen.spectrum(ctx, channels=m, length=length, resolution=resolution)
    else:
        data = gen.spectrogram(ctx, channels=m, frequencies=length, length=r.randint(0 if length else 1, 5), resolution=resolution)
        h, error = h[:, :, None], error[:, :, None]
    what = f"{type(filter_).__name__} ({n} channels, {kind}) * {gen.describe(data)}"
    ctx.note(what)
    before = data.channels().copy()
    got, side = apply(ctx, filter_, data)
    ctx.check(type(got) is type(data) and got.shape() == (max(n, m),) + data.shape()[1:] and got.resolution() == data.resolution(), lambda: f"{what}: {gen.describe(got)}")
    ctx.check(len(got.labels()) == max(n, m), lambda: f"{what}: labels {got.labels()}")
    if isinstance(data, sumpf.Spectrogram):
        ctx.check(got.sampling_rate() == data.sampling_rate() and got.offset() == data.offset(), lambda: f"{what}: {gen.describe(got)}")
        if data.offset():
            ctx.event("offset")
    with numpy.errstate(all="ignore"):
        expected = h * before
        compare(ctx, got.channels(), expected, error * abs(before) + numpy.zeros(expected.shape), what, f"{'spectrogram' if isinstance(data, sumpf.Spectrogram) else 'spectrum'} bin compared")
    ctx.check(gen.exact(data.channels(), before), lambda: f"{what} modified the data set")
    ctx.sign(kind, type(data).__name__, n, m, side, min(length, 3))
    if r.random() < 0.1:
        refused(ctx, filter_, data)


def refused(ctx, filter_, data):
    for name, f in (("data/filter", lambda: data / filter_), ("filter/data", lambda: filter_ / data), ("data+filter", lambda: data + filter_), ("filter-data", lambda: filter_ - data), ("data-filter", lambda: data - filter_), ("data**filter", lambda: data ** filter_),
                    ("data%filter", lambda: data % filter_), ("filter+data", lambda: filter_ + data)):
        try:
            got = f()
        except TypeError:
            continue
        ctx.fail(f"{name} of {gen.describe(data)} is {gen.describe(got)}")
    ctx.event("other operators refused")


def signal(ctx):
    """the explicit Fourier sums"""
    r = ctx.rng
    n, m = counts(ctx)
    length = 2 * (r.choice((1, 2, 3, r.randint(1, 20), r.randint(1, 20))) if not getattr(ctx, "big", 0) else gen.extent(ctx, 20))
    rate = r.choice((48000.0, 44100, 8.0, 10.0 ** r.uniform(0, 5)))
    resolution = rate / length
    filter_, reference, kind = make(ctx, n, max(resolution, rate * r.uniform(0.02, 0.6)))
    data = sumpf.Signal(channels=gen.values(ctx, (m, length)), sampling_rate=rate, offset=r.choice((0, r.randint(-3 * length, 3 * length))), labels=gen.labels(ctx, m))
    what = f"{type(filter_).__name__} ({n} channels, {kind}) * {gen.describe(data)}"
    ctx.note(what)
    before = data.channels().copy()
    h, error = response(filter_, reference, resolution, length // 2 + 1)
    got, side = apply(ctx, filter_, data)
    ctx.check(type(got) is sumpf.Signal and got.shape() == (max(n, m), length) and abs(got.sampling_rate() - rate) <= 1e-12 * rate and got.offset() == 0 and len(got.labels()) == max(n, m), lambda: f"{what}: {gen.describe(got)}")
    ctx.check(gen.exact(data.channels(), before), lambda: f"{what} modified the signal")
    if data.offset():
        ctx.event("offset")
    k = numpy.arange(length // 2 + 1)
    t = numpy.arange(length)
    forth = numpy.exp(-2j * numpy.pi * ((k[:, None] * ((t[None, :] + data.offset()) % length)) % length) / length)
    spectrum = before @ forth.T
    filtered = h * spectrum
    back = numpy.exp(2j * numpy.pi * ((t[:, None] * k[None, :]) % length) / length) / length
    weights = numpy.where((k == 0) | (k == length // 2), 1.0, 2.0)
    expected = numpy.real((filtered * weights) @ back.T)
    # the transform of real samples sees only the real parts at 0 Hz and at the Nyquist frequency
    scale = abs(before).sum(axis=1, keepdims=True)
    bound = (2.0 * error * scale + 1e-12 * abs(h) * scale).sum(axis=1, keepdims=True) / length * numpy.ones((1, length))
    with numpy.errstate(all="ignore"):
        good = numpy.isfinite(h).all(axis=1) & (error <= 1e-7 * abs(h).max(axis=1, keepdims=True)).all(axis=1)
    for c in range(max(n, m)):
        if not good[c if n > 1 else 0]:
            ctx.event("ill conditioned channel skipped")
            continue
        e, g, b = expected[c], got.channels()[c], bound[c if bound.shape[0] > 1 else 0]
        ctx.check(bool((abs(g - e) <= b + 1e-300).all()), lambda: f"{what}: channel {c}: {gen.diff(g, e)}")
        ctx.event("signal sample compared", length)
    ctx.sign("signal", kind, n, m, side, min(length, 6), data.offset() == 0)
    if r.random() < 0.1:
        refused(ctx, filter_, data)


def delay(ctx):
    """delays by whole samples rotate the signal; the samples' time positions are those of the signal"""
    r = ctx.rng
    length = 2 * r.randint(1, 30)
    rate = r.choice((48000.0, 1.0, 44100.0))
    data = sumpf.Signal(channels=gen.values(ctx, (r.randint(1, 3), length)), sampling_rate=rate, offset=gen.offset(ctx, 40))
    k = r.randint(-2 * length, 2 * length)
    filter_ = sumpf.DelayFilter(k / rate)
    what = f"DelayFilter({k}/{rate}) * {gen.describe(data)}"
    ctx.note(what)
    got, side = apply(ctx, filter_, data)
    expected = numpy.roll(data.channels(), k + data.offset(), axis=1)
    ctx.check(got.offset() == 0 and gen.close(got.channels(), expected, 1e-9, 1e-9), lambda: f"{what}: {gen.diff(got.channels(), expected)}")
    ctx.event("delay by whole samples")
    # a chain of filters is the product of the filters
    second, _, kind = make(ctx, 1, rate / 4)
    if kind not in ("bands",) and not kind.startswith("tree"):
        a = second * (filter_ * data)
        b = (filter_ * second) * data
        scale = float(abs(second.spectrum(rate / length, length // 2 + 1).channels()).max()) * float(abs(data.channels()).sum())
        ctx.check(gen.close(a.channels(), b.channels(), 0.0, 1e-9 * scale), lambda: f"{kind} * ({what}) differs from the product of the filters: {gen.diff(a.channels(), b.channels())}")
        ctx.event("chain of filters")
    ctx.sign("delay", side, k == 0, k < 0, data.offset() == 0)


def sampled(ctx):
    r = ctx.rng
    n = r.choice((1, 1, 2, 3))
    if r.random() < 0.1:
        resolution, length, kwargs = 48000.0 / 4096, 2049, {}
    else:
        resolution, length = r.choice((1.0, 10.0 ** r.uniform(-3, 4), 5)), r.choice((0, 1, 2, 3, r.randint(4, 60)))
        kwargs = {"resolution": resolution, "length": length}
        if r.random() < 0.15:
            length = 2049
            del kwargs["length"]
        elif r.random() < 0.15:
            resolution = 48000.0 / 4096
            del kwargs["resolution"]
    if len(kwargs) < 2:
        ctx.event("default sampling")
    filter_, reference, kind = make(ctx, n, resolution * r.uniform(1.0, 20.0))
    what = f"{type(filter_).__name__} ({n} channels, {kind}).spectrum({kwargs})"
    ctx.note(what)
    got = filter_.spectrum(*kwargs.values()) if len(kwargs) == 2 and r.random() < 0.5 else filter_.spectrum(**kwargs)
    ctx.check(type(got) is sumpf.Spectrum and got.shape() == (n, length) and got.resolution() == resolution and got.labels() == tuple(filter_.labels()), lambda: f"{what}: {gen.describe(got)}")
    h, error = response(filter_, reference, resolution, length)
    compare(ctx, got.channels(), h, error, what, "sampled response compared")
    if r.random() < 0.4:        # the same filter with other parameters
        resolution, length = r.choice((resolution, resolution * 2.0, resolution * r.uniform(0.1, 3.0))), r.choice((length, min(length, 60) + 1, r.randint(1, 60)))
        again = filter_.spectrum(resolution, length)
        ctx.check(again.shape() == (n, length) and again.resolution() == resolution, lambda: f"{what}, then with {resolution}, {length}: {gen.describe(again)}")
        h, error = response(filter_, reference, resolution, length)
        compare(ctx, again.channels(), h, error, f"{what}, then with {resolution}, {length}", "sampled with other parameters")
    ctx.sign("sampled", kind, n, min(length, 4))


SCENARIOS = [("bins", bins, 8000, 60000), ("signal", signal, 5000, 40000), ("delay", delay, 1500, 10000), ("sampled", sampled, 2500, 15000),
             ("large bins", gen.big(bins, 3000), 6, 60), ("large signal", gen.big(signal, 1100), 6, 60)]
