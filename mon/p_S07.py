"""S07: convolution and correlation are correct and correctly placed in time."""
import numpy
import sumpf
from . import gen

PROPERTY = "S07"
RULE = ("random pairs of signals or of a signal and an array (one and several channels, also different channel counts; lengths from one, equal, shorter, longer, odd, even, "
        "long; positive, negative and large offsets) are convolved and correlated in every mode; the reference is the double sum over all pairs of samples at their absolute "
        "sample positions, from which the mode's part is cut.  Distinct by operation, mode, operand type, relation/parity of the lengths and relation of the channel counts")
ASSUMPTIONS = ["arrays are placed at offset 0; arrays and signals with a sampling rate other than the first signal's are combined sample by sample",
               "SAME follows NumPy's convention: the max(lengths) samples of the full result that start at index (min(lengths)-1)//2",
               "SPECTRUM is circular with the period max(lengths) or, when this is odd, with one more sample",
               "the labels are judged when both operands have the same number of channels or the second one has one channel"]
REQUIRED = ["sample compared", "convolve", "correlate"] + [f"mode {m.name}" for m in sumpf.Signal.convolution_modes] + ["array operand", "single channel first", "single channel second", "pairwise"]

MODES = sumpf.Signal.convolution_modes


def full_convolution(x, y, ox, oy):
    """{absolute position: value} as an array and its first position"""
    result = numpy.zeros(len(x) + len(y) - 1)
    for i, v in enumerate(x):
        for j, w in enumerate(y):
            result[i + j] += v * w
    return result, ox + oy


def full_correlation(x, y, ox, oy):
    """r(l) = sum_t x(t) * y(t+l)"""
    first = oy - (ox + len(x) - 1)
    result = numpy.zeros(len(x) + len(y) - 1)
    for i, v in enumerate(x):
        for j, w in enumerate(y):
            lag = (oy + j) - (ox + i)
            result[lag - first] += v * w
    return result, first


def expected(x, y, ox, oy, mode, correlation):
    """the expected samples and their first position for one pair of channels"""
    if len(x) * len(y) > 4000:
        if correlation:
            full, first = numpy.convolve(x[::-1], y), oy - ox - len(x) + 1
        else:
            full, first = numpy.convolve(x, y), ox + oy
    elif correlation:
        full, first = full_correlation(x, y, ox, oy)
    else:
        full, first = full_convolution(x, y, ox, oy)
    short, long = min(len(x), len(y)), max(len(x), len(y))
    if mode in (MODES.FULL, MODES.SPECTRUM_PADDED):
        return full, first
    if mode is MODES.SAME:
        s = (short - 1) // 2
        return full[s:s + long], first + s
    if mode is MODES.VALID:
        s = short - 1
        return full[s:s + long - short + 1], first + s
    # circular: every position holds the sum of all positions, that are equal modulo the period
    period = long + long % 2
    result = numpy.zeros(long)
    for p in range(len(full)):
        q = p % period
        if q < long:
            result[q] += full[p]
    return result, first


def pick_length(ctx):
    r = ctx.rng
    if getattr(ctx, "big", 0):
        return gen.extent(ctx, 300)
    return r.choice((1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, 15, r.randint(1, 20), r.randint(1, 20), r.randint(10, 60), r.randint(60, 300)))


def offset(ctx):
    r = ctx.rng
    return r.choice((0, 0, r.randint(-10, 10), r.randint(-10, 10), r.randint(-1000, 1000), r.randint(-10 ** 6, 10 ** 6)))


def relation(a, b):
    return "1" if a == b == 1 else "=" if a == b else "<" if a < b else ">"


def pair(ctx):
    r = ctx.rng
    la = pick_length(ctx)
    lb = r.choice((la, pick_length(ctx), pick_length(ctx), max(1, la + r.choice((-1, 1, 2)))))
    ca, cb = r.choice(((1, 1), (1, 2), (1, 3), (2, 1), (3, 1), (2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (4, 2)))
    kind = r.choice(("nice", "nice", "int", "positive"))
    a = gen.signal(ctx, channels=ca, length=la, off=offset(ctx), kind=kind)
    operand = r.choice(("signal", "signal", "signal", "array", "vector", "list", "intarray"))
    if operand in ("vector", "list"):
        cb = 1
    b = gen.signal(ctx, channels=cb, length=lb, off=offset(ctx) if operand == "signal" else 0, sampling_rate=r.choice((None, a.sampling_rate())), kind="int" if operand == "intarray" else kind)
    if operand == "signal":
        other = b
    elif operand == "array":
        other = numpy.array(b.channels())
    elif operand == "intarray":
        other = numpy.array(b.channels()).astype(int)
    elif operand == "vector":
        other = numpy.array(b.channels()[0])
    else:
        other = b.channels()[0].tolist()
    mode = r.choice(list(MODES))
    correlation = r.random() < 0.5
    name = "correlate" if correlation else "convolve"
    default = mode is MODES.SPECTRUM_PADDED and r.random() < 0.3
    method = getattr(a, name)
    gen.warm(ctx, lambda: a.convolve(other, mode), lambda: a.correlate(other, mode), lambda: method(b, r.choice(list(MODES))), lambda: method(b * 2.0, mode), lambda: method(a, mode), lambda: b.convolve(a, mode), lambda: method(2.0), probability=0.25)
    if default:
        result = method(other)
    elif r.random() < 0.5:
        result = method(other, mode)
    else:
        result = method(other=other, mode=mode)
    what = f"{gen.describe(a)}.{name}({operand} {gen.describe(b)}, {mode.name})"
    ctx.note(f"{what} -> {gen.describe(result)}")
    count = cb if ca == 1 else ca if cb == 1 else min(ca, cb)
    refs = []
    for c in range(count):
        x = a.channels()[0 if ca == 1 else c]
        y = b.channels()[0 if cb == 1 else c]
        refs.append(expected(x, y, a.offset(), b.offset(), mode, correlation))
    first = refs[0][1]
    ref = numpy.array([v for v, _ in refs])
    if mode is MODES.SPECTRUM and not correlation:
        period = max(la, lb) + max(la, lb) % 2
        # the samples are placed circularly: the first max(lengths) of the period, beginning at the sum of the offsets
        ref = numpy.array([circular(a.channels()[0 if ca == 1 else c], b.channels()[0 if cb == 1 else c], period, max(la, lb)) for c in range(count)])
        first = a.offset() + b.offset()
    elif mode is MODES.SPECTRUM:
        period = max(la, lb) + max(la, lb) % 2
        ref = numpy.array([circular_lags(a.channels()[0 if ca == 1 else c], b.channels()[0 if cb == 1 else c], period, max(la, lb)) for c in range(count)])
        first = b.offset() - a.offset() - la + 1
    ctx.event(name)
    ctx.event(f"mode {mode.name}")
    ctx.event("sample compared", ref.size)
    if operand != "signal":
        ctx.event("array operand")
    ctx.event("single channel first" if ca == 1 and cb > 1 else "single channel second" if cb == 1 and ca > 1 else "pairwise")
    ctx.check(isinstance(result, sumpf.Signal) and result.shape() == ref.shape, lambda: f"{what} is {gen.describe(result)}, expected the shape {ref.shape}")
    ctx.check(result.offset() == first, lambda: f"{what} starts at {result.offset()}, expected {first}")
    ctx.check(result.sampling_rate() == a.sampling_rate(), lambda: f"{what} has the sampling rate {result.sampling_rate()}")
    for c in range(count):
        # each channel is compared relative to the magnitude of its operands
        scale = numpy.linalg.norm(a.channels()[0 if ca == 1 else c]) * numpy.linalg.norm(b.channels()[0 if cb == 1 else c])
        d = numpy.max(numpy.abs(result.channels()[c] - ref[c])) if ref.shape[1] else 0.0
        ctx.check(d <= 1e-11 * scale + 1e-300, lambda: f"{what}, channel {c}: {gen.diff(result.channels()[c], ref[c])}")
    if ca == cb or cb == 1:
        labels = ("Correlation" if correlation else "Convolution",) * count if operand == "signal" else a.labels()
        ctx.check(result.labels() == labels, lambda: f"{what} has the labels {result.labels()}, expected {labels}")
    elif ca > cb and operand != "signal":
        ctx.check(result.labels() == a.labels()[0:cb], lambda: f"{what} has the labels {result.labels()}, expected {a.labels()[0:cb]}")
    ctx.sign(name, mode.name, operand, relation(la, lb), la % 2, lb % 2, relation(ca, cb), 1 in (la, lb))


def circular(x, y, period, length):
    result = numpy.zeros(period)
    for j, w in enumerate(y):
        result += w * numpy.roll(numpy.pad(x, (0, period - len(x))), j)
    return result[:length]


def circular_lags(x, y, period, length):
    """lags from -(len(x)-1) on, circular with the given period"""
    xp = numpy.pad(x, (0, period - len(x)))
    yp = numpy.pad(y, (0, period - len(y)))
    return numpy.array([numpy.dot(xp, numpy.roll(yp, -(lag))) for lag in range(-(len(x) - 1), -(len(x) - 1) + length)])


def laws(ctx):
    """relations between results: commutativity, shifts, associativity with the unit impulse, correlation as convolution with the mirrored signal"""
    r = ctx.rng
    ca, cb = r.choice(((1, 1), (2, 2), (1, 3), (3, 1), (2, 1)))
    la, lb = pick_length(ctx), pick_length(ctx)
    sr = gen.rate(ctx)
    a = gen.signal(ctx, channels=ca, length=la, off=offset(ctx), sampling_rate=sr)
    b = gen.signal(ctx, channels=cb, length=lb, off=offset(ctx), sampling_rate=sr)
    for mode in MODES:
        x, y = a.convolve(b, mode), b.convolve(a, mode)
        ctx.event("convolve", 2)
        ctx.check(x.offset() == y.offset() and gen.close_scaled(x.channels(), y.channels(), 1e-10), lambda: f"convolution of {gen.describe(a)} and {gen.describe(b)} in mode {mode.name} is not commutative: {x.offset()}, {y.offset()}; {gen.diff(x.channels(), y.channels())}")
        k = r.randint(-50, 50)
        z = a.shift(k).convolve(b, mode)
        ctx.check(z.offset() == x.offset() + k and gen.close_scaled(z.channels(), x.channels(), 1e-10), lambda: f"convolution of {gen.describe(a)}, shifted by {k}, and {gen.describe(b)} in mode {mode.name} starts at {z.offset()}, unshifted at {x.offset()}; {gen.diff(z.channels(), x.channels())}")
        u, v = a.correlate(b, mode), a.shift(k).correlate(b, mode)
        w = a.correlate(b.shift(k), mode)
        ctx.event("correlate", 3)
        ctx.check(v.offset() == u.offset() - k and w.offset() == u.offset() + k and gen.close_scaled(v.channels(), u.channels(), 1e-10) and gen.close_scaled(w.channels(), u.channels(), 1e-10),
                  lambda: f"correlation of {gen.describe(a)} and {gen.describe(b)} in mode {mode.name} with one of them shifted by {k}: {u.offset()}, {v.offset()}, {w.offset()}")
        ctx.event(f"mode {mode.name}")
    impulse = sumpf.Signal(channels=numpy.array([[1.0]]), sampling_rate=sr, offset=r.randint(-9, 9))
    for mode in MODES:
        x = a.convolve(impulse, mode)
        ctx.check(x.offset() == a.offset() + impulse.offset() and x.shape() == a.shape() and gen.close_scaled(x.channels(), a.channels(), 1e-10), lambda: f"{gen.describe(a)} convolved with an impulse in mode {mode.name}: {gen.describe(x)}; {gen.diff(x.channels(), a.channels())}")
    mirrored = sumpf.Signal(channels=a.channels()[:, ::-1], sampling_rate=sr, offset=-(a.offset() + la - 1))
    for mode in (MODES.FULL, MODES.VALID, MODES.SPECTRUM_PADDED):
        x, y = a.correlate(b, mode), mirrored.convolve(b, mode)
        ctx.check(x.offset() == y.offset() and gen.close_scaled(x.channels(), y.channels(), 1e-10), lambda: f"correlation of {gen.describe(a)} and {gen.describe(b)} in mode {mode.name} differs from the convolution of the mirrored signal: {x.offset()}, {y.offset()}; {gen.diff(x.channels(), y.channels())}")
    # the maximum of a full correlation is found at the true delay
    n = r.randint(20, 80)
    noise = sumpf.Signal(channels=gen.values(ctx, (1, n)), sampling_rate=sr, offset=r.randint(-30, 30))
    d = r.randint(-100, 100)
    delayed = noise.shift(d) * 0.5
    for mode in (MODES.FULL, MODES.SPECTRUM_PADDED, MODES.SAME, MODES.SPECTRUM, MODES.VALID):
        c = noise.correlate(delayed, mode)
        position = int(numpy.argmax(numpy.abs(c.channels()[0]))) + c.offset()
        if mode is MODES.SPECTRUM:
            period = n + n % 2
            ctx.check((position - d) % period == 0, lambda: f"the correlation of noise (length {n}) and its copy, delayed by {d}, has its maximum at {position} in mode {mode.name}")
        else:
            ctx.check(position == d, lambda: f"the correlation of noise (length {n}) and its copy, delayed by {d}, has its maximum at {position} in mode {mode.name}")
    ctx.sign("laws", relation(la, lb), la % 2, lb % 2, ca, cb)


def scalar(ctx):
    """a number is a unit impulse with this magnitude"""
    r = ctx.rng
    a = gen.signal(ctx)
    x = r.choice((2.0, -0.5, 3, numpy.float64(1.5)))
    for mode in MODES:
        c = a.convolve(x, mode)
        ctx.event("convolve")
        ctx.check(c.offset() == a.offset() and gen.close(c.channels(), a.channels() * x), lambda: f"{gen.describe(a)} convolved with {x}: {gen.describe(c)}")
    ctx.sign("scalar")


SCENARIOS = [("pair", pair, 30000, 400000), ("laws", laws, 2000, 30000), ("scalar", scalar, 50, 500),
             ("large pair", gen.big(pair, 5000), 25, 250), ("large laws", gen.big(laws, 9000), 4, 40)]
