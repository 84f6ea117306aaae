"""S19: sweeps follow their frequency law and pair with their inverses."""
import math
import numpy
import sumpf
from . import gen

PROPERTY = "S19"
RULE = ("linear and exponential sweeps and their inverses with random frequencies (rising and falling), phases, intervals (integers, fractions, negative indices, beyond the signal) and lengths on both sides of the threshold, at which "
        "another computation path is used: samples are compared to the sine (with the envelope of the inverse) of the integrated frequency law in extended precision; reported frequencies are compared to the law; the convolution "
        "of a sweep with its inverse has to be one at time zero, to be small elsewhere and to be flat in the excited band; harmonic impulse responses are cut from synthetic responses, in which each harmonic is a band limited pulse at "
        "its exact (fractional) position.  Distinct by class, path, kind of the interval, order of the harmonic")
ASSUMPTIONS = ["the interval is not empty and not reversed", "the reported minimum and maximum frequencies are those at the first sample and at the end of the last sample; linear sweeps, whose frequency becomes negative, are not judged",
               "the convolution with the inverse is judged for sweeps with a time bandwidth product above 150, that are excited below 0.48 times the sampling rate", "harmonic impulse responses are judged, where the pulse does not wrap around the end of the signal"]
REQUIRED = ["LinearSweep", "InverseLinearSweep", "ExponentialSweep", "InverseExponentialSweep", "short path", "long path", "length 8192", "length 8193", "falling frequency", "fractional interval", "negative index", "interval beyond the signal",
            "instantaneous frequency", "array of times", "frequency limits", "impulse:linear", "impulse:exponential", "flat band", "harmonic 1", "harmonic 2", "harmonic 3", "harmonic above 3", "harmonic zero padded", "harmonic cropped",
            "harmonic natural length", "response with an offset", "circular response", "odd harmonic length", "defaults"]
CLASSES = {"LinearSweep": (sumpf.LinearSweep, False, False), "InverseLinearSweep": (sumpf.InverseLinearSweep, False, True),
           "ExponentialSweep": (sumpf.ExponentialSweep, True, False), "InverseExponentialSweep": (sumpf.InverseExponentialSweep, True, True)}
PI2 = 2.0 * numpy.longdouble("3.14159265358979323846264338327950288")


def parameters(ctx, length, low=2):
    """the arguments and the interval as integers"""
    r = ctx.rng
    rate = r.choice((48000.0, 44100, 8000.0, 1000.0, 96000.0, 11025.5))
    f0, f1 = rate * r.uniform(0.0001, 0.05), rate * r.uniform(0.1, 0.48)
    if r.random() < 0.25:
        f0, f1 = f1, f0
        ctx.event("falling frequency")
    elif r.random() < 0.1:
        f0, f1 = max(1, int(f0)), int(f1)
    phase = r.choice((0.0, math.pi / 2.0, r.uniform(-7.0, 7.0), 1))
    arguments = {"start_frequency": f0, "stop_frequency": f1, "phase": phase, "sampling_rate": rate, "length": length}
    k = r.randrange(6)
    if k == 0:
        return arguments, 0, length, rate, f0, f1, phase
    start = r.randint(0, max(0, length // 3))
    stop = r.randint(max(start + low, length // 2), max(start + low, length))
    i, j = start, stop
    if k == 1 and length:
        i, j = (start + r.choice((0.0, 0.3, -0.3))) / length if start else 0.0, (stop + r.choice((0.0, 0.3, -0.3))) / length if stop < length else stop / length
        ctx.event("fractional interval")
    elif k == 2:
        if 0 < start:
            i = start - length if r.random() < 0.5 else i
        if stop < length:
            j = stop - length if r.random() < 0.7 else (stop - length) / length
            ctx.event("negative index")
    elif k == 3:
        j = stop = length + r.randint(1, length + 2)
        ctx.event("interval beyond the signal")
    arguments["interval"] = r.choice((tuple, list))((i, j)) if r.random() < 0.9 else numpy.array((start, stop))
    return arguments, start, stop, rate, f0, f1, phase


def law(exponential, inverse, start, stop, rate, f0, f1):
    """functions, that compute the frequency and the number of elapsed periods at a time (both in extended precision), and the envelope"""
    f0, f1 = numpy.longdouble(f0), numpy.longdouble(f1)
    duration = numpy.longdouble(stop - start) / numpy.longdouble(rate)
    begin = numpy.longdouble(start) / numpy.longdouble(rate)

    def local(t):
        u = (t - begin) / duration
        return 1.0 - u if inverse else u
    if exponential:
        ratio = numpy.log(f1 / f0)

        def frequency(t):
            return f0 * numpy.exp(ratio * local(t))

        def periods(t):
            return f0 * duration / ratio * numpy.expm1(ratio * local(t))
    else:
        def frequency(t):
            return f0 + (f1 - f0) * local(t)

        def periods(t):
            u = local(t)
            return duration * (f0 * u + (f1 - f0) * u * u / 2.0)

    def envelope(t):
        if not inverse:
            return numpy.ones_like(t)
        e = numpy.full_like(t, 2.0 / (stop - start))
        if exponential:     # the mean of the frequency over the interval is (f1-f0)/log(f1/f0)
            e *= frequency(t) * ratio / (f1 - f0)
        return e
    return frequency, periods, envelope


def samples(ctx):
    r = ctx.rng
    name = r.choice(list(CLASSES))
    cls, exponential, inverse = CLASSES[name]
    length = r.choice((1, 2, 3, 4, 10, r.randint(2, 200), r.randint(2, 200), r.randint(200, 3000), 8191, 8192, 8193, r.randint(8193, 12000), r.randint(8193, 20000)))
    arguments, start, stop, rate, f0, f1, phase = parameters(ctx, length, low=1)
    what = f"{name}({arguments})"
    ctx.note(what)
    a = cls(**arguments)
    ctx.check(a.shape() == (1, length) and a.sampling_rate() == rate and len(a.labels()) == 1, lambda: f"{what}: {gen.describe(a)}")
    ctx.check(a.offset() == (-start - stop if inverse else 0), lambda: f"{what}: the offset is {a.offset()}")
    frequency, periods, envelope = law(exponential, inverse, start, stop, rate, f0, f1)
    t = numpy.arange(length, dtype=numpy.longdouble) / numpy.longdouble(rate)
    p = periods(t)
    e = envelope(t)
    expected = e * numpy.sin(PI2 * p + phase)
    # rounding errors of the time and the phase
    tolerance = (1e-12 + 4e-15 * (numpy.abs(p) + numpy.max(numpy.abs(p[:1])) + numpy.abs(frequency(t)) * (t[-1] + (start + stop) / rate))) * numpy.abs(e) * 6.3
    got = a.channels()[0]
    wrong = ~(numpy.abs(got - expected) <= tolerance)
    ctx.check(not wrong.any(), lambda: f"{what}: sample {int(numpy.argmax(wrong))} is {got[numpy.argmax(wrong)]!r} instead of {expected[numpy.argmax(wrong)]!r}")
    # the reported frequencies
    scale = max(f0, f1, float(abs(frequency(numpy.longdouble(0)))), float(abs(frequency(t[-1]))))
    times = [0.0, start / rate, stop / rate, length / rate, r.uniform(0.0, length / rate), -0.5 * length / rate]
    for x in times[0:5]:
        g, y = a.instantaneous_frequency(x), float(frequency(numpy.longdouble(x)))
        ctx.check(abs(g - y) <= 1e-11 * scale, lambda: f"{what}.instantaneous_frequency({x}) is {g} instead of {y}")
    g = a.instantaneous_frequency(start / rate), a.instantaneous_frequency(stop / rate)
    ctx.check(all(abs(x - y) <= 1e-11 * scale for x, y in zip(g, (f1, f0) if inverse else (f0, f1))), lambda: f"{what}: the frequencies at the bounds of the interval are {g}")
    ctx.event("instantaneous frequency")
    given = r.choice((numpy.array, list, tuple))(times[0:5]) if r.random() < 0.7 else numpy.array(times[0:4]).reshape(2, 2)
    g = a.instantaneous_frequency(given)
    y = frequency(numpy.asarray(given, dtype=numpy.longdouble))
    ctx.check(isinstance(g, numpy.ndarray) and g.shape == numpy.shape(given) and bool((numpy.abs(g - y) <= 1e-11 * scale).all()), lambda: f"{what}.instantaneous_frequency({given!r}) is {g!r} instead of {y!r}")
    ctx.event("array of times")
    ends = [float(frequency(numpy.longdouble(x))) for x in (0.0, length / rate)]
    if min(ends) > 0.0:
        limits = a.minimum_frequency(), a.maximum_frequency()
        ctx.check(abs(limits[0] - min(ends)) <= 1e-11 * scale and abs(limits[1] - max(ends)) <= 1e-11 * scale, lambda: f"{what}: minimum_frequency() and maximum_frequency() are {limits} instead of {sorted(ends)}")
        ctx.event("frequency limits")
    ctx.event(name)
    ctx.event("long path" if length > 8192 else "short path")
    if length in (8192, 8193):
        ctx.event(f"length {length}")
    ctx.sign(name, length > 8192, min(length, 5), start == 0, stop == length, stop > length, f0 > f1)


def impulse(ctx):
    r = ctx.rng
    exponential = r.random() < 0.5
    length = r.choice((r.randint(1500, 4000), r.randint(1500, 8192), r.randint(8193, 16000)))
    rate = r.choice((48000.0, 44100, 8000.0))
    f0, f1 = rate * r.uniform(0.0005, 0.02), rate * r.uniform(0.2, 0.48)
    phase = r.uniform(-3.0, 3.0)
    start, stop = r.choice(((0, length), (r.randint(0, length // 6), r.randint(length * 5 // 6, length))))
    arguments = {"start_frequency": f0, "stop_frequency": f1, "phase": phase, "interval": (start, stop), "sampling_rate": rate, "length": length}
    what = f"{'exponential' if exponential else 'linear'} sweep with {arguments}"
    ctx.note(what)
    a = (sumpf.ExponentialSweep if exponential else sumpf.LinearSweep)(**arguments)
    b = (sumpf.InverseExponentialSweep if exponential else sumpf.InverseLinearSweep)(**arguments)
    if (start, stop) != (0, length):    # only the excited interval
        n = stop - start
        a = a[:, start:stop]
        # the sample i of the sweep belongs to the sample start+stop-i of the inverse
        b = b[:, start:stop]
    mode = r.choice((sumpf.Signal.convolution_modes.FULL, sumpf.Signal.convolution_modes.SPECTRUM_PADDED))
    c = a.convolve(b, mode=mode)
    x = c.channels()[0]
    i = -c.offset()
    ctx.check(0 <= i < len(x), lambda: f"{what}: the convolution with the inverse does not contain the time zero: {gen.describe(c)}")
    tolerance = 0.06
    ctx.check(abs(x[i] - 1.0) <= tolerance and int(numpy.argmax(numpy.abs(x))) == i, lambda: f"{what}: the convolution with the inverse is {x[i]} at time zero, and {numpy.max(numpy.abs(x))} at sample {int(numpy.argmax(numpy.abs(x)))} - {i}")
    # the energy is around the peak
    half = numpy.concatenate((x[0:i - 40], x[i + 41:]))
    ctx.check(numpy.max(numpy.abs(half)) <= 0.2, lambda: f"{what}: the convolution with the inverse has {numpy.max(numpy.abs(half))} far from time zero")
    # in the excited band it is flat, without a phase
    f = numpy.fft.rfftfreq(len(x), 1.0 / rate)
    y = numpy.fft.rfft(numpy.roll(x, -i)) * 2.0 * (f1 - f0) / rate
    if exponential:
        low, high = f0 * (f1 / f0) ** 0.35, f0 * (f1 / f0) ** 0.85
    else:
        low, high = f0 + 0.25 * (f1 - f0), f0 + 0.75 * (f1 - f0)
    band = y[(f >= low) & (f <= high)]
    m = numpy.mean(band)
    ctx.check(abs(m - 1.0) <= 0.08, lambda: f"{what}: the mean of the spectrum of the convolution with the inverse is {m} in the excited band")
    ctx.event("impulse:exponential" if exponential else "impulse:linear")
    ctx.event("flat band")
    ctx.sign("impulse", exponential, length > 8192, start == 0)


WIDTH = 3.0
MARGIN = 30


def pulse(n, position):
    """a band limited and compact pulse"""
    i = numpy.arange(n)
    return numpy.where(numpy.abs(i - position) < MARGIN - 2, numpy.exp(-0.5 * ((i - position) / WIDTH) ** 2), 0.0)


def harmonics(ctx):
    r = ctx.rng
    c = r.choice((1, 1, 2, 3, 5))
    rate = r.choice((48000.0, 44100, 8000.0, 1.0, 2.5))
    ratio = r.uniform(20.0, 1500.0)
    n = r.choice((r.randint(2500, 6000), r.randint(2500, 6000), r.randint(8193, 12000)))    # length of the sweep
    f0 = 0.0003 * rate
    start, stop = r.choice(((0, n), (n // 10, n - n // 20)))
    inverse = r.random() < 0.3
    sweep_rate = rate if r.random() < 0.8 else rate * r.choice((2.0, 0.5))
    scale = rate / sweep_rate
    cls = sumpf.InverseExponentialSweep if inverse else sumpf.ExponentialSweep
    sweep = cls(start_frequency=f0, stop_frequency=f0 * ratio, interval=(start, stop), sampling_rate=sweep_rate, length=n)
    l = (stop - start) / sweep_rate / math.log(ratio) * rate     # in samples of the impulse response
    h = r.choice((1, 2, 2, 3, 3, 4, 5, 6, 7, 11))
    shift = math.log(h) * l
    if h == 1:
        span = r.randint(500, 1500)
    elif h == 2:
        span = int(shift)
    else:
        span = int(shift - math.log(h - 1) * l)
    if span < 2 * MARGIN + 12:
        return
    # the response, in which the sample index "zero" is the time 0
    circular = r.random() < 0.5
    total = int(math.ceil(shift)) + r.randint(60, 500) + (2 * span if h == 1 else 0)
    total += r.choice((0, 1))
    if circular:
        zero = 0
        off = 0
    else:
        zero = r.randint(int(math.ceil(shift)) + 1, total - 1) if h > 1 else r.randint(0, total - span)
        off = -zero
    if total - zero < 2 * MARGIN + 10 and h == 1:
        return
    delay = r.choice((r.uniform(MARGIN, span - MARGIN - 3), float(r.randint(MARGIN, span - MARGIN - 4))))
    position = (zero - shift + delay) % total       # the exact position of the harmonic's pulse
    if position + MARGIN >= total or position < MARGIN:
        return
    gains = [r.uniform(0.3, 3.0) * r.choice((-1, 1)) for _ in range(c)]
    v = numpy.outer(gains, pulse(total, position))
    # something, that does not belong to this harmonic
    outside = numpy.zeros((c, total))
    begin = (zero - int(math.ceil(shift))) % total
    if not h == 1:
        index = (numpy.arange(total) - begin) % total
        natural = int(math.ceil(shift)) - (int(math.floor(math.log(h - 1) * l)) if h > 2 else 0)
        outside[:, index >= natural] = gen.values(ctx, (c, int((index >= natural).sum())))
    else:
        outside[:, 0:zero] = gen.values(ctx, (c, zero))
        natural = total - zero
    labels = gen.labels(ctx, c)
    ir = sumpf.Signal(channels=v + outside, sampling_rate=rate, offset=off, labels=labels)
    k = r.randrange(3)
    if k == 0:
        length = None
    elif k == 1:
        length = natural + r.randint(0, 200)
    else:
        length = r.randint(max(1, int(delay) - 5), natural)
    what = f"{cls.__name__}(l={l / rate} s).harmonic_impulse_response({gen.describe(ir)}, harmonic={h}, length={length}) [pulse at {delay} samples after {shift} samples before zero]"
    ctx.note(what)
    before = ir.channels().copy()
    gen.warm(ctx, lambda: sweep.harmonic_impulse_response(ir, h, natural + 3), lambda: sweep.harmonic_impulse_response(ir, h + 1), lambda: sweep.harmonic_impulse_response(ir * 2.0, h, length), lambda: sweep.harmonic_impulse_response(ir, max(1, h - 1), length), lambda: sweep.harmonic_impulse_response(ir.shift(1), h, length))
    if length is None and r.random() < 0.5:
        x = sweep.harmonic_impulse_response(ir, h)
    else:
        x = sweep.harmonic_impulse_response(impulse_response=ir, harmonic=h, length=length)
    ctx.check(gen.exact(ir.channels(), before), lambda: f"{what} modified the impulse response")
    ctx.check(isinstance(x, sumpf.Signal) and x.offset() == 0 and x.sampling_rate() == rate and len(x) == c, lambda: f"{what}: {gen.describe(x)}")
    ctx.check(all(y.startswith(z) and "harmonic" in y for y, z in zip(x.labels(), ir.labels())), lambda: f"{what}: the labels are {x.labels()}")
    if length is None:
        ctx.check(abs(x.length() - natural) <= 2 if h > 1 else x.length() == natural, lambda: f"{what}: the length is {x.length()} instead of {natural}")
        ctx.event("harmonic natural length")
    else:
        ctx.check(x.length() == length, lambda: f"{what}: the length is {x.length()}")
        ctx.event("harmonic zero padded" if length > natural else "harmonic cropped")
    m = x.length()
    expected = numpy.outer(gains, pulse(m, delay))
    ctx.check(gen.close_scaled(numpy.append(x.channels(), max(gains)), numpy.append(expected, max(gains)), 1e-8), lambda: f"{what}: {gen.diff(x.channels(), expected)}")
    ctx.event(f"harmonic {h}" if h <= 3 else "harmonic above 3")
    ctx.event("circular response" if circular else "response with an offset")
    if m % 2:
        ctx.event("odd harmonic length")
    ctx.sign("harmonic", h, circular, k, m % 2, inverse, scale == 1.0)


def defaults(ctx):
    for name, (cls, exponential, inverse) in CLASSES.items():
        a = cls()
        ctx.check(a.length() == 2 ** 16 and a.sampling_rate() == 48000.0, lambda: f"{name}(): {gen.describe(a)}")
        frequency, periods, envelope = law(exponential, inverse, 0, 2 ** 16, 48000.0, 20.0, 20000.0)
        t = numpy.arange(2 ** 16, dtype=numpy.longdouble) / 48000
        expected = envelope(t) * numpy.sin(PI2 * periods(t))
        ctx.check(bool((numpy.abs(a.channels()[0] - expected) <= 1e-9 * envelope(t)).all()), lambda: f"{name}(): {gen.diff(a.channels()[0], expected)}")
        ctx.check(abs(a.minimum_frequency() - 20.0) < 1e-6 and abs(a.maximum_frequency() - 20000.0) < 1e-6, lambda: f"{name}(): frequencies {a.minimum_frequency()} and {a.maximum_frequency()}")
        ctx.event("defaults")


SCENARIOS = [("samples", samples, 6000, 40000), ("impulse", impulse, 400, 3000), ("harmonics", harmonics, 5000, 40000)]
PROBES = [("defaults", defaults)]
