"""S22: energy decay curves and reverberation times."""
import math
import numpy
import sumpf
from . import gen

PROPERTY = "S22"
RULE = ("random impulse responses (several channels, lengths from zero on, offsets, integer samples, leading and trailing silence, magnitudes from 1e-100 to 1e100): each sample of the energy decay curve is compared to the "
        "exactly rounded sum of the squares from this sample to the end, the curve must not increase and must keep the meta data; the slope, that is derived from the reverberation times and decay models, is compared to a "
        "linear regression in exact rational arithmetic over exactly the requested samples, for indices given as integers, negative integers and fractions; exponentially decaying responses have to yield their known "
        "reverberation time.  Distinct by channels, length class, notation of the indices and kind of the response")
ASSUMPTIONS = ["the energy decay curve is not normalized: its first sample is the total energy", "the interval for the reverberation time contains at least two samples, in which the energy is not zero"]
REQUIRED = ["curve sample compared", "never increases", "one channel", "many channels", "no samples", "integer samples", "reverberation time", "decay model", "negative index", "fractional index",
            "exponential decay", "channels with different decays", "nonzero offset", "meta data kept"]


def impulse_response(ctx):
    """(samples, sampling rate, offset, labels)"""
    r = ctx.rng
    c = gen.count(ctx, 1, 1, 2, 3, 5)
    n = r.choice((0, 1, 2, 3, 4, 5, r.randint(1, 60), r.randint(1, 60), r.randint(60, 300))) if not getattr(ctx, "big", 0) else gen.extent(ctx, 300)
    k = r.choice(("nice", "nice", "int", "decay", "decay", "silence", "sparse"))
    v = gen.values(ctx, (c, n), "int" if k == "int" else "nice")
    if k == "decay":
        v = v * numpy.exp(-numpy.outer([r.uniform(0.0, 0.3) for _ in range(c)], numpy.arange(n)))
    elif k == "silence" and n:
        v[:, 0:r.randint(0, n)] = 0.0
        v[:, n - r.randint(0, n):] = 0.0
    elif k == "sparse":
        v = v * (ctx.np.uniform(size=v.shape) < 0.3)
    if k != "int" and r.random() < 0.2:
        v = v * r.choice((1e-100, 1e-20, 1e20, 1e100))
    if k == "int" and r.random() < 0.6:
        dtype, factor = r.choice(((numpy.int64, 1), (numpy.int64, 10 ** 9), (numpy.int32, 10 ** 7), (numpy.int16, 3000), (numpy.int8, 14), (numpy.int16, 1)))
        v = (v * factor).astype(dtype)
        ctx.event("integer samples")
    return sumpf.Signal(channels=v, sampling_rate=gen.rate(ctx), offset=gen.offset(ctx), labels=gen.labels(ctx, c)), k


def curve(ctx):
    a, k = impulse_response(ctx)
    what = f"EnergyDecayCurve({gen.describe(a)}, {k})"
    ctx.note(what)
    before = a.channels().copy()
    e = sumpf.EnergyDecayCurve(a)
    ctx.check(isinstance(e, sumpf.Signal) and e.shape() == a.shape() and e.sampling_rate() == a.sampling_rate() and e.offset() == a.offset() and e.labels() == a.labels(), lambda: f"{what} has the meta data {gen.describe(e)}")
    ctx.check(gen.exact(a.channels(), before), lambda: f"{what} modified the impulse response")
    ctx.event("meta data kept")
    for c in range(len(a)):
        squares = [float(v) * float(v) for v in before[c]]
        got = e.channels()[c]
        for i in range(len(squares)):
            x = math.fsum(squares[i:])
            ctx.check(abs(got[i] - x) <= 1e-12 * x, lambda: f"{what}: channel {c}, sample {i} is {got[i]!r} instead of {x!r}")
            ctx.event("curve sample compared")
        ctx.check(bool((numpy.diff(got) <= 0.0).all()), lambda: f"{what}: channel {c} increases")
        ctx.event("never increases")
    ctx.event("one channel" if len(a) == 1 else "many channels")
    if a.length() == 0:
        ctx.event("no samples")
    if a.offset():
        ctx.event("nonzero offset")
    ctx.sign("curve", len(a), min(a.length(), 5), k)


def present(ctx, i, n):
    """an index in another notation, that means the same sample"""
    r = ctx.rng
    k = r.randrange(5)
    if k == 0 and i < n:
        ctx.event("negative index")
        return i - n
    if k == 1 and 0 < i < n:
        ctx.event("fractional index")
        return (i + r.choice((0.0, 0.3, -0.3))) / n
    if k == 2 and 0 < i < n:
        ctx.event("fractional index")
        return (i - n + r.choice((0.0, 0.3, -0.3))) / n
    if k == 3 and i == n:
        ctx.event("fractional index")
        return 1.0
    return i


def regression(y, first):
    """slope and value at the index 0 of the least squares line through the points (first, y[0]), (first+1, y[1]), ..."""
    n = len(y)
    mean = math.fsum(y) / n
    middle = (n - 1) / 2.0
    m = math.fsum((i - middle) * (v - mean) for i, v in enumerate(y)) / (n * (n * n - 1) / 12.0)
    return m, mean - m * (middle + first)


def reverberation(ctx):
    r = ctx.rng
    c = r.choice((1, 1, 2, 3))
    n = r.choice((4, 5, 6, r.randint(4, 40), r.randint(4, 40), r.randint(40, 400))) if not getattr(ctx, "big", 0) else gen.extent(ctx, 400, 4)
    rate, off, lab = gen.rate(ctx), gen.offset(ctx), gen.labels(ctx, c)
    v = gen.values(ctx, (c, n)) * 10.0 ** r.choice((0, 0, -10, 8))
    v = v * numpy.exp(-numpy.outer([r.uniform(-0.01, 0.2) * min(1.0, 400.0 / n) for _ in range(c)], numpy.arange(n)))
    a = sumpf.EnergyDecayCurve(sumpf.Signal(channels=v, sampling_rate=rate, offset=off, labels=lab))
    start = r.randint(0, n - 2)
    stop = r.choice((n, r.randint(start + 2, n)))
    i, j = present(ctx, start, n), present(ctx, stop, n)
    what = f"({c} channels, length {n}, sampling rate {rate}).reverberation_time({i!r}, {j!r}) [samples {start} to {stop}]"
    ctx.note(what)
    gen.warm(ctx, lambda: a.reverberation_time(i, n), lambda: a.reverberation_time(0, j), lambda: a.decay_model(i, n), lambda: a.decay_model(0, j), lambda: a.decay_model(0.0, 0.5))
    t = a.reverberation_time(i, j) if r.random() < 0.5 else a.reverberation_time(start=i, stop=j)
    ctx.check(isinstance(t, tuple) and len(t) == c, lambda: f"{what} is {t!r}")
    model = a.decay_model(i, j)
    ctx.check(type(model) is sumpf.Signal and model.shape() == a.shape() and model.sampling_rate() == rate and model.offset() == off and model.labels() == a.labels(), lambda: f"decay_model for {what}: {gen.describe(model)}")
    for k in range(c):
        y = [10.0 * math.log10(float(x)) for x in a.channels()[k][start:stop]]
        m, b = regression(y, start)
        # the derived quantity is judged as the decay in the interval, for which rounding errors are known
        tolerance = 1e-10 * (max(abs(x) for x in y) + 1.0)
        got = -60.0 / (t[k] * rate)
        ctx.check(abs(got - m) * (stop - start) <= tolerance, lambda: f"{what}: channel {k} is {t[k]!r} s instead of {-60.0 / m / rate!r}")
        ctx.event("reverberation time")
        for s in range(n):
            e = m * s + b
            if abs(e) < 2900.0:
                g = 10.0 * math.log10(model.channels()[k][s])
                ctx.check(abs(g - e) <= tolerance * (1.0 + n / (stop - start)), lambda: f"decay_model for {what}: channel {k}, sample {s} is {g} dB instead of {e} dB")
        ctx.event("decay model")
    ctx.sign("time", c, min(n, 8), type(i).__name__, type(j).__name__, i < 0, j < 0, start == 0, stop == n)


def exponential(ctx):
    """h(t) ~ 10**(-3 t / T) decays by 60 dB in T, the remaining energy, too"""
    r = ctx.rng
    c = r.choice((1, 2, 3))
    rate = r.choice((48000.0, 8000.0, 1000.0, 44100))
    n = r.randint(200, 3000)
    times = [r.uniform(0.15, 1.2) * n / rate for _ in range(c)]
    t = numpy.arange(n) / rate
    sign = ctx.np.choice((-1.0, 1.0), (c, n))
    v = sign * numpy.array([r.uniform(0.1, 9.0) * 10.0 ** (-3.0 * t / x) for x in times])
    off = r.choice((0, 17, -5))
    a = sumpf.EnergyDecayCurve(sumpf.Signal(channels=v, sampling_rate=rate, offset=off))
    # the tail beyond the end of the signal is missing, so only the first part is exponential
    last = max(3, int(0.15 * min(times) * rate))
    start, stop = r.randint(0, last // 3), last
    got = a.reverberation_time(start, stop)
    for x, g in zip(times, got):
        missing = 10.0 ** (-6.0 * (n - stop) / rate / x)
        ctx.check(abs(g - x) <= (1e-9 + 20.0 * missing) * x, lambda: f"an exponential decay with the reverberation time {x} s yields {g} s")
        ctx.event("exponential decay")
    if c > 1:
        ctx.event("channels with different decays")
    if off:
        ctx.event("nonzero offset")
    ctx.note(f"exponential decays with the reverberation times {times} and {n} samples")
    ctx.sign("exponential", c)


SCENARIOS = [("curve", curve, 4000, 40000), ("reverberation", reverberation, 3000, 30000), ("exponential", exponential, 600, 5000),
             ("large curve", gen.big(curve, 30000), 5, 50), ("large reverberation", gen.big(reverberation, 30000), 4, 40)]
