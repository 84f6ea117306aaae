"""S08: levels and statistics match their definitions."""
import math
import numpy
import sumpf
from . import gen

PROPERTY = "S08"
RULE = ("random signals (channels, lengths from one on, odd and even, magnitudes from tiny to huge, with and without a mean value) and all results of level(), mean(), "
        "variance(), standard_deviation(), skewness() and kurtosis(), per channel and for all samples, are compared to sums in exact (fsum) arithmetic; level_vs_time() is "
        "compared, at every sample, to the explicit weighted mean over the centred interval.  Distinct by method, length class, ratio of the integration interval to the length, "
        "fractional coverage and padding")
ASSUMPTIONS = ["variance, skewness and kurtosis are the population quantities (kurtosis is the excess kurtosis)",
               "skewness and kurtosis are judged for channels whose deviation is not negligible compared to their mean",
               "when the integration time is at most one sample long, the level is the sample's magnitude"]
REQUIRED = ["level", "spectrum level", "mean", "variance", "standard_deviation", "skewness", "kurtosis", "level_vs_time sample compared",
            "interval longer than the signal", "interval of a fractional number of samples", "padded", "not padded", "odd length"]


def moments(v):
    n = len(v)
    mean = math.fsum(v) / n
    d = [x - mean for x in v]
    m2 = math.fsum(x * x for x in d) / n
    m3 = math.fsum(x * x * x for x in d) / n
    m4 = math.fsum(x ** 4 for x in d) / n
    return mean, m2, m3, m4


def pick_length(ctx):
    r = ctx.rng
    if getattr(ctx, "big", 0):
        return gen.extent(ctx, 400)
    return r.choice((1, 2, 3, 4, 5, 6, 7, 9, 16, 25, r.randint(1, 40), r.randint(1, 40), r.randint(40, 400)))


def stats(ctx):
    r = ctx.rng
    a = gen.signal(ctx, channels=r.choice((1, 2, 3, 4)), length=pick_length(ctx), off=r.choice((0, 5, -7)), kind=r.choice(("nice", "nice", "int", "positive")))
    if r.random() < 0.3:
        a = a * r.choice((1e-20, 1e10, -3.0, 1e-100)) + r.choice((0.0, 0.0))
    if r.random() < 0.3:
        a = a + r.choice((1.0, 10.0, -100.0)) * float(numpy.max(numpy.abs(a.channels())))
    elif r.random() < 0.1:
        dtype, peak = r.choice(((numpy.int16, 30000), (numpy.int8, 120), (numpy.int32, 2000000000), (numpy.int64, 1000)))
        a = sumpf.Signal(channels=numpy.round(a.channels() / numpy.max(numpy.abs(a.channels()), initial=1e-300) * peak).astype(dtype), sampling_rate=a.sampling_rate(), offset=a.offset(), labels=a.labels())
        ctx.event("integer samples")
    what = gen.describe(a)
    ctx.note(what)
    rows = [[float(v) for v in c] for c in a.channels()]
    every = [v for row in rows for v in row]
    for name, single in [(n, s) for n in ("level", "mean", "variance", "standard_deviation", "skewness", "kurtosis") for s in (False, True)]:
        groups = [every] if single else rows
        gen.warm(ctx, lambda: getattr(a, name)(True), lambda: getattr(a, name)(False), lambda: a.level(True), lambda: a.mean(True), lambda: a.variance(), lambda: a.level(), probability=0.2)
        got = getattr(a, name)(single_value=True) if single else (getattr(a, name)() if r.random() < 0.5 else getattr(a, name)(single_value=False))
        if single:
            ctx.check(numpy.ndim(got) == 0, lambda: f"{name}(single_value=True) of {what} is {got!r}")
            got = [got]
        else:
            ctx.check(numpy.shape(got) == (len(a),), lambda: f"{name}() of {what} is {got!r}")
        for g, v in zip(got, groups):
            mean, m2, m3, m4 = moments(v)
            scale = max(abs(x) for x in v)
            noise = 1e-14 * scale * len(v) ** 0.5
            flat = math.sqrt(m2) < 1e-3 * scale
            if name == "level":
                expected, tol = math.sqrt(math.fsum(x * x for x in v) / len(v)), 1e-12 * scale
            elif name == "mean":
                expected, tol = mean, 1e-13 * scale
            elif name == "variance":
                expected, tol = m2, 1e-10 * m2 + noise ** 2
            elif name == "standard_deviation":
                expected, tol = math.sqrt(m2), 1e-10 * math.sqrt(m2) + noise
            elif flat or scale < 1e-50:
                continue
            elif name == "skewness":
                expected, tol = m3 / m2 ** 1.5, 1e-8
            else:
                expected, tol = m4 / m2 ** 2 - 3.0, 1e-8
            ctx.event(name)
            ctx.check(abs(g - expected) <= tol, lambda: f"{name}(single_value={single}) of {what} is {g!r}, expected {expected!r}")
    if a.length() % 2:
        ctx.event("odd length")
    ctx.sign("stats", min(a.length(), 12), len(a))


def spectrum(ctx):
    """the level of a spectrum is that of the signal with this spectrum"""
    r = ctx.rng
    m = r.choice((1, 2, 3, 4, 5, 9, r.randint(1, 60))) if not getattr(ctx, "big", 0) else gen.extent(ctx, 60)
    c = r.choice((1, 2, 3))
    s = gen.spectrum(ctx, channels=c, length=m, kind=r.choice(("nice", "nice", "int")))
    ch = s.channels() * r.choice((1.0, 1.0, 1e-20, 1e12))
    ch[:, 0] = ch[:, 0].real
    ch[:, -1] = ch[:, -1].real
    s = sumpf.Spectrum(channels=ch, resolution=s.resolution(), labels=s.labels())
    n = max(1, 2 * (m - 1))
    # Parseval's theorem with the two sided spectrum
    rows = []
    for row in ch:
        two = [abs(v) ** 2 for v in row] + ([abs(v) ** 2 for v in row[1:-1]] if m > 1 else [])
        rows.append(math.fsum(two) / n ** 2)
    expected = numpy.sqrt(rows)
    total = math.sqrt(math.fsum(rows) / len(rows))
    ctx.event("spectrum level", len(rows) + 1)
    what = gen.describe(s)
    gen.warm(ctx, lambda: s.level(True), lambda: abs(s).level())
    got = s.level()
    ctx.check(numpy.shape(got) == (c,) and gen.close(got, expected, 1e-10, 0.0), lambda: f"level of {what}: {got}, expected {expected}")
    gen.warm(ctx, s.level, lambda: s.level(False))
    got = s.level(single_value=True)
    ctx.check(numpy.ndim(got) == 0 and math.isclose(got, total, rel_tol=1e-10), lambda: f"level(single_value=True) of {what}: {got}, expected {total}")
    ctx.sign("spectrum", min(m, 12), c)


def interval_level(squares, i, window, pad):
    """the level at sample i, with an integration interval of window (a float, in samples)"""
    h = (window - 1.0) / 2.0
    whole = int(math.floor(h))
    fraction = h - whole
    terms, weight = [], 0.0
    for j in range(max(0, i - whole - 1), min(len(squares), i + whole + 2)):
        w = 1.0 if abs(j - i) <= whole else fraction
        terms.append(w * squares[j])
        weight += w
    return math.sqrt(math.fsum(terms) / (window if pad else weight))


def vs_time(ctx):
    r = ctx.rng
    n = r.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, r.randint(1, 20), r.randint(10, 60), r.randint(60, 150))) if not getattr(ctx, "big", 0) else gen.extent(ctx, 150)
    a = gen.signal(ctx, channels=r.choice((1, 2, 3)), length=n, off=r.choice((0, 3, -20)), kind=r.choice(("nice", "nice", "int", "positive")), sampling_rate=r.choice((None, 1.0, 2.0, 48000.0)))
    if r.random() < 0.2:
        a = a * r.choice((1e-10, 1e10))
    elif r.random() < 0.15:
        dtype, peak = r.choice(((numpy.int16, 30000), (numpy.int8, 120), (numpy.int32, 2000000000), (numpy.int64, 1000)))
        a = sumpf.Signal(channels=numpy.round(a.channels() / numpy.max(numpy.abs(a.channels()), initial=1e-300) * peak).astype(dtype), sampling_rate=a.sampling_rate(), offset=a.offset(), labels=a.labels())
        ctx.event("integer samples")
    window = r.choice((r.uniform(0.1, 2.0 * n + 3), r.uniform(0.9, 3.5), float(r.randint(1, 2 * n + 3)), float(r.randint(1, n + 2)), n + r.uniform(-2, 2), 2.0 * n + r.uniform(-3, 3), 2.0 * n - 1.0, 1.0, 2.0, 3.0, 10.0 * n))
    window = max(window, 0.05)
    t = window / a.sampling_rate()
    if r.random() < 0.06:
        t = 1.0
    if r.random() < 0.05:
        t = r.choice((1, 2, 0.125))
    window = t * a.sampling_rate()
    pad = r.random() < 0.5
    what = f"{gen.describe(a)}.level_vs_time({t!r} [{window!r} samples], pad={pad})"
    gen.warm(ctx, lambda: a.level_vs_time(t, not pad), lambda: a.level_vs_time(2.0 * t, pad), lambda: a.level_vs_time(0.0), lambda: a.level(), lambda: a.level_vs_time(3.5 / a.sampling_rate(), not pad))
    if t == 1.0 and not pad and r.random() < 0.5:
        b = a.level_vs_time()
    elif not pad and r.random() < 0.5:
        b = a.level_vs_time(t)
    else:
        b = a.level_vs_time(integration_time=t, pad=pad)
    ctx.note(what)
    ctx.check(isinstance(b, sumpf.Signal) and b.shape() == a.shape() and b.offset() == a.offset() and b.sampling_rate() == a.sampling_rate() and b.labels() == a.labels(), lambda: f"{what} is {gen.describe(b)}")
    for c in range(len(a)):
        squares = [float(v) ** 2 for v in a.channels()[c]]
        scale = math.sqrt(max(squares))
        if window <= 1.0:
            expected = [math.sqrt(v) for v in squares]
        else:
            expected = [interval_level(squares, i, window, pad) for i in range(n)]
        ctx.event("level_vs_time sample compared", n)
        d = numpy.abs(b.channels()[c] - expected)
        # a square root of a rounded sum: tiny results are only accurate relative to the largest sample
        ok = (d <= 1e-7 * scale) & (numpy.abs(b.channels()[c] ** 2 - numpy.square(expected)) <= 1e-12 * scale ** 2)
        ctx.check(bool(ok.all()), lambda: f"{what}, channel {c}: {gen.diff(b.channels()[c], expected)}")
    ctx.event("padded" if pad else "not padded")
    if n % 2:
        ctx.event("odd length")
    h = (window - 1) / 2
    if window > n:
        ctx.event("interval longer than the signal")
    if window > 1 and h != math.floor(h):
        ctx.event("interval of a fractional number of samples")
    ctx.sign("vs_time", min(n, 9), n % 2, "<=1" if window <= 1 else "part" if h < (n - 1) / 2 else "half" if 1 + h < n else "all", h == math.floor(h), pad)


SCENARIOS = [("stats", stats, 6000, 80000), ("spectrum", spectrum, 4000, 60000), ("vs_time", vs_time, 12000, 200000),
             ("large stats", gen.big(stats, 20000), 4, 40), ("large spectrum", gen.big(spectrum, 20000), 4, 40), ("large vs_time", gen.big(vs_time, 2100), 4, 40)]
