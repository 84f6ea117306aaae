"""S05: Fourier transform and its inverse are faithful."""
import math
import numpy
import sumpf
from . import gen

PROPERTY = "S05"
RULE = ("random signals and spectrums (channels, lengths of all kinds - 1, odd, even, prime, powers of two -, offsets also far from zero, "
        "sampling rates, magnitudes) are transformed; every bin/sample is compared to a directly evaluated Fourier sum with exactly reduced "
        "phases.  Distinct by length class, offset class, channels and transform direction")
ASSUMPTIONS = ["rounding errors up to 1e-10 of the largest value (plus the representation error of the phase for large offsets) are accepted",
               "the forth and back transform and the inverse of a signal by multiplication with its spectrum are judged for even lengths (odd lengths: documented loss of a sample)"]
REQUIRED = ["forward bin compared", "inverse sample compared", "round trip", "linearity", "level compared", "inverted signal", "offset", "empty"]


def dft(x, offset, bins):
    """direct Fourier sum at the true time positions; the phases are reduced exactly with integers"""
    n = x.shape[1]
    k = (numpy.arange(bins) if isinstance(bins, int) else bins)[:, None]
    t = (numpy.arange(n)[None, :] + int(offset)) % n
    phase = (k * t) % n
    kernel = numpy.exp(-2j * numpy.pi * phase / n)
    return x @ kernel.T


def some(ctx, n):
    """the indices, that are compared: all of them or some of many"""
    if n <= 1500:
        return numpy.arange(n)
    return numpy.unique(numpy.array([0, 1, 2, n // 2, n - 2, n - 1] + [ctx.rng.randrange(n) for _ in range(30)]))


def idft(X, n, samples):
    """direct inverse Fourier sum for a one sided spectrum with (n/2)+1 bins"""
    bins = X.shape[1]
    if n == 1:
        return X.real[:, 0:1]
    k = numpy.arange(bins)[:, None]
    t = samples[None, :]
    phase = 2.0 * numpy.pi * ((k * t) % n) / n
    weight = numpy.full(bins, 2.0)
    weight[0] = 1.0
    weight[-1] = 1.0
    Xr, Xi = X.real * weight, X.imag * weight
    return (Xr @ numpy.cos(phase) - Xi @ numpy.sin(phase)) / n


def length_class(n):
    return "1" if n == 1 else "2" if n == 2 else "3" if n == 3 else ("odd" if n % 2 else "even") + (" long" if n > 64 else "")


def lengths(ctx):
    r = ctx.rng
    if getattr(ctx, "big", 0):
        return gen.extent(ctx, 700)
    return r.choice((1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 33, 64, 97, 128, r.randint(9, 200), r.randint(200, 700)))


def far_offset(ctx):
    r = ctx.rng
    return r.choice((0, 0, 1, -1, r.randint(-20, 20), r.randint(-20, 20), r.randint(-10 ** 4, 10 ** 4), r.randint(-10 ** 6, 10 ** 6)))


def tolerance(offset):
    return 1e-10 + 4e-15 * abs(offset)


def forward(ctx):
    r = ctx.rng
    n = lengths(ctx)
    o = far_offset(ctx)
    a = gen.signal(ctx, channels=r.choice((1, 2, 3)), length=n, off=o, kind=r.choice(("nice", "nice", "int", "positive")))
    if r.random() < 0.2:
        a = a * r.choice((1e-30, 1e30))
    gen.warm(ctx, lambda: a.fourier_transform(window=min(8, n), overlap=0), lambda: a.shift(3).fourier_transform(), lambda: (a * 2.0).fourier_transform(), lambda: a.short_time_fourier_transform(window=min(8, n), overlap=0), probability=0.2)
    s = a.fourier_transform()
    ctx.check(isinstance(s, sumpf.Spectrum) and s.shape() == (len(a), n // 2 + 1), lambda: f"the spectrum of {gen.describe(a)} is {gen.describe(s)}")
    ctx.check(s.labels() == a.labels(), lambda: f"the labels {a.labels()} became {s.labels()}")
    ctx.check(math.isclose(s.resolution(), a.sampling_rate() / n, rel_tol=1e-12), lambda: f"resolution {s.resolution()} for {gen.describe(a)}")
    bins = some(ctx, n // 2 + 1)
    expected = dft(a.channels(), o, bins)
    largest = numpy.max(numpy.abs(s.channels()), axis=1)
    ctx.event("forward bin compared", expected.size)
    if o:
        ctx.event("offset")
    for c in range(len(a)):     # each channel for itself, so that small ones are judged, too
        got = s.channels()[c][bins]
        ctx.check(gen.close_scaled(got, expected[c], tolerance(o)) if len(bins) == s.length() else bool(numpy.all(numpy.abs(got - expected[c]) <= tolerance(o) * largest[c])),
                  lambda: f"Fourier transform of {gen.describe(a)}, channel {c}: {gen.diff(got, expected[c])}")
    ctx.sign("forward", length_class(n), min(n, 40), "0" if o == 0 else "near" if abs(o) < n else "far", len(a))
    ctx.note(f"{gen.describe(a)} -> {gen.describe(s)}")
    # levels
    if n % 2 == 0 or n == 1:
        ctx.event("level compared")
        ls, la = s.level(), a.level()
        expected = numpy.array([math.sqrt(math.fsum(float(v) ** 2 for v in c) / n) for c in a.channels()])
        ctx.check(gen.close(la, expected, 1e-9, 0.0), lambda: f"level of {gen.describe(a)}: {la}, expected {expected}")
        ctx.check(gen.close(ls, expected, 1e-9, 0.0), lambda: f"level of the spectrum of {gen.describe(a)}: {ls}, expected {expected}")
        total = math.sqrt(math.fsum(float(v) ** 2 for v in a.channels().ravel()) / a.channels().size)
        for name, x in (("signal", a), ("spectrum", s)):
            ctx.check(math.isclose(x.level(single_value=True), total, rel_tol=1e-9), lambda: f"single value level of the {name} of {gen.describe(a)}: {x.level(single_value=True)}, expected {total}")
    # forth and back
    if n % 2 == 0:
        back = s.inverse_fourier_transform()
        ctx.event("round trip")
        ctx.check(back.shape() == a.shape() and math.isclose(back.sampling_rate(), a.sampling_rate(), rel_tol=1e-12) and back.labels() == a.labels(),
                  lambda: f"{gen.describe(a)} forth and back is {gen.describe(back)}")
        moved = numpy.roll(a.channels(), o + (-back.offset()), axis=1)
        ctx.check(gen.close_scaled(back.channels(), moved, tolerance(o)), lambda: f"{gen.describe(a)} forth and back: {gen.diff(back.channels(), moved)}")


def inverse(ctx):
    r = ctx.rng
    m = r.choice((1, 2, 3, 4, 5, 8, 9, 17, 33, r.randint(2, 300))) if not getattr(ctx, "big", 0) else gen.extent(ctx, 300)
    s = gen.spectrum(ctx, channels=r.choice((1, 2, 3)), length=m, kind=r.choice(("nice", "nice", "int")))
    n = max(1, (m - 1) * 2)
    gen.warm(ctx, lambda: (s * 2.0).inverse_fourier_transform(), s.level, lambda: s.pad(m + 1).inverse_fourier_transform(), lambda: s[:, 0:-1].inverse_fourier_transform(), probability=0.2)
    b = s.inverse_fourier_transform()
    ctx.check(b.shape() == (len(s), n) and b.labels() == s.labels() and b.offset() == 0, lambda: f"the inverse transform of {gen.describe(s)} is {gen.describe(b)}")
    ctx.check(math.isclose(b.sampling_rate(), s.resolution() * n, rel_tol=1e-12), lambda: f"sampling rate {b.sampling_rate()} for {gen.describe(s)}")
    samples = some(ctx, n)
    expected = idft(s.channels(), n, samples)
    ctx.event("inverse sample compared", expected.size)
    for c in range(len(s)):
        # the samples can cancel each other out, so that the rounding errors scale with the spectrum and not with the result
        scale = float(numpy.sum(numpy.abs(s.channels()[c]))) / n
        ctx.check(bool(numpy.all(numpy.abs(b.channels()[c][samples] - expected[c]) <= 1e-10 * scale)), lambda: f"inverse transform of {gen.describe(s)}, channel {c}: {gen.diff(b.channels()[c][samples], expected[c])}")
    # a hermitian spectrum's level is that of its signal
    c = s.channels().copy()
    c[:, 0] = c[:, 0].real
    c[:, -1] = c[:, -1].real
    h = sumpf.Spectrum(channels=c, resolution=s.resolution(), labels=s.labels())
    ctx.event("level compared")
    ctx.check(gen.close(h.level(), h.inverse_fourier_transform().level(), 1e-9, 1e-14), lambda: f"level of {gen.describe(h)}: {h.level()}, its signal's is {h.inverse_fourier_transform().level()}")
    if m > 1:
        f = h.inverse_fourier_transform().fourier_transform()
        ctx.event("round trip")
        ctx.check(f.shape() == h.shape() and f.labels() == h.labels() and math.isclose(f.resolution(), h.resolution(), rel_tol=1e-12) and gen.close_scaled(f.channels(), h.channels(), 1e-10),
                  lambda: f"{gen.describe(h)} back and forth is {gen.describe(f)} {gen.diff(f.channels(), h.channels())}")
    ctx.sign("inverse", m, len(s))


def linear(ctx):
    r = ctx.rng
    n, o, sr = lengths(ctx), r.randint(-30, 30), gen.rate(ctx)
    c = r.choice((1, 2, 3))
    a = gen.signal(ctx, channels=c, length=n, off=o, sampling_rate=sr)
    b = gen.signal(ctx, channels=c, length=n, off=o, sampling_rate=sr)
    x, y = r.uniform(-3, 3), r.uniform(-3, 3)
    left = (x * a + y * b).fourier_transform()
    right = x * a.fourier_transform() + y * b.fourier_transform()
    ctx.event("linearity")
    ctx.check(left.resolution() == right.resolution() and gen.close_scaled(left.channels(), right.channels(), 1e-10), lambda: f"Fourier transform of {x}*a+{y}*b with {gen.describe(a)}: {gen.diff(left.channels(), right.channels())}")
    res = gen.rate(ctx)
    m = gen.extent(ctx, 60)
    a, b = (gen.spectrum(ctx, channels=c, length=m, resolution=res) for _ in range(2))
    left = (x * a + y * b).inverse_fourier_transform().channels()
    right = (x * a.inverse_fourier_transform() + y * b.inverse_fourier_transform()).channels()
    ctx.check(gen.close_scaled(left, right, 1e-10), lambda: f"inverse Fourier transform of {x}*a+{y}*b with {gen.describe(a)}: {gen.diff(left, right)}")
    # a time shift is a linear phase
    k = r.randint(-40, 40)
    a = gen.signal(ctx, channels=c, length=n, off=o, sampling_rate=sr)
    s, t = a.fourier_transform(), a.shift(k).fourier_transform()
    phase = numpy.exp(-2j * numpy.pi * ((numpy.arange(s.length()) * (k % n)) % n) / n)
    ctx.check(gen.close_scaled(t.channels(), s.channels() * phase, 1e-10), lambda: f"shifting {gen.describe(a)} by {k} is not a linear phase: {gen.diff(t.channels(), s.channels() * phase)}")
    ctx.sign("linear", n, c)


def inverted(ctx):
    """the circular convolution with the inverse is a unit impulse at time 0"""
    r = ctx.rng
    n = r.choice((2, 4, 6, 8, 10, 16, 31, 33, 50, 64, 1, 3, 5, 7)) if not getattr(ctx, "big", 0) else gen.extent(ctx, 64)
    o = r.choice((0, 0, r.randint(-9, 9), r.randint(-300, 300)))
    c = r.choice((1, 2, 3))
    x = gen.values(ctx, (c, n)) * 0.2
    x[:, 0] += 5.0 * n ** 0.5
    x = numpy.roll(x, r.randrange(n), axis=1)
    a = sumpf.Signal(channels=x, sampling_rate=gen.rate(ctx), offset=o, labels=gen.labels(ctx, c))
    b = ~a
    ctx.event("inverted signal")
    ctx.check(b.shape() == a.shape() and b.sampling_rate() == a.sampling_rate() and b.labels() == a.labels(), lambda: f"~{gen.describe(a)} is {gen.describe(b)}")
    # sum over all pairs of samples at true times, modulo the length
    result = numpy.zeros((c, n))
    for i in range(n):
        result += a.channels()[:, i:i + 1] * numpy.roll(b.channels(), i + a.offset() + b.offset(), axis=1)
    impulse = numpy.zeros((c, n))
    impulse[:, 0] = 1.0
    ctx.check(gen.close_scaled(result, impulse, 1e-8), lambda: f"the convolution of {gen.describe(a)} with its inverse (offset {b.offset()}) is not a unit impulse: {gen.diff(result, impulse)}")
    # also with the library's own convolution
    if n % 2 == 0:
        conv = a.convolve(b, mode=sumpf.Signal.convolution_modes.SPECTRUM)
        rolled = numpy.roll(conv.channels(), conv.offset(), axis=1)
        ctx.check(gen.close_scaled(rolled, impulse, 1e-8), lambda: f"spectrum convolution of {gen.describe(a)} with its inverse: {gen.diff(rolled, impulse)}")
    ctx.sign("inverted", length_class(n), o == 0, c)


def empty(ctx):
    """signals and spectrums without samples or without channels"""
    r = ctx.rng
    c, n = r.choice(((0, 0), (0, r.randint(1, 9)), (r.randint(1, 4), 0), (1, 0)))
    a = sumpf.Signal(channels=numpy.empty((c, n)), sampling_rate=gen.rate(ctx), offset=r.randint(-5, 5), labels=gen.labels(ctx, c))
    s = a.fourier_transform()
    ctx.event("empty")
    ctx.check(s.shape() == (c, n // 2 + 1) and s.labels() == a.labels() and s.resolution() == a.sampling_rate() / max(n, 1) and not s.channels().any(),
              lambda: f"the Fourier transform of {gen.describe(a)} is {gen.describe(s)} with {s.channels()}")
    back = s.inverse_fourier_transform()
    ctx.check(len(back) == c and back.labels() == a.labels() and not back.channels().any(), lambda: f"{gen.describe(a)} forth and back is {gen.describe(back)}")
    ctx.check(back.offset() == 0 and back.length() == max(1, n // 2 * 2), lambda: f"{gen.describe(a)} forth and back is {gen.describe(back)}")
    c, m = r.choice(((0, 0), (0, r.randint(1, 9)), (r.randint(1, 4), 0)))
    p = sumpf.Spectrum(channels=numpy.empty((c, m), dtype=complex), resolution=gen.rate(ctx), labels=gen.labels(ctx, c))
    b = p.inverse_fourier_transform()
    ctx.check(b.shape() == (c, max(1, (m - 1) * 2) if m else 0) and b.labels() == p.labels() and b.offset() == 0,
              lambda: f"the inverse Fourier transform of {gen.describe(p)} is {gen.describe(b)}")
    ctx.sign("empty", c, n, m)


SCENARIOS = [("empty", empty, 60, 400), ("forward", forward, 2500, 40000), ("inverse", inverse, 1500, 20000), ("linear", linear, 500, 8000), ("inverted", inverted, 500, 8000),
             ("large forward", gen.big(forward, 140000), 10, 100), ("large inverse", gen.big(inverse, 70000), 8, 80),
             ("large linear", gen.big(linear, 140000), 4, 40), ("large inverted", gen.big(inverted, 4000), 4, 40)]
