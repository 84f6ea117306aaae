"""S06: block-wise and short-time transforms account for every sample."""
import math
import numpy
import sumpf
from . import gen

PROPERTY = "S06"
RULE = ("random signals with lengths below, at and above multiples of window length and step, offsets, windows (generated, symmetric, random, "
        "one or several channels, given as integer, signal, array or list), overlaps (integer, fraction, negative) and both padding choices; "
        "every bin of the block-wise transform and of each frame of the short time transform is compared to the directly summed windowed "
        "segments at their true times, the inverse is compared to the original or to an independent overlap-add.  Distinct by the relation "
        "of the signal's length to window and step, window form, overlap form, padding and offset remainder")
ASSUMPTIONS = ["multi-channel windows have as many channels as the signal",
               "the short time transform is normalised with the sum of the window (as SciPy does), its frames are centred (pad=True) or begin (pad=False) at the multiples of the step",
               "a short time transform with a window, that is longer than the signal, may be rejected with a ValueError (by SciPy)",
               "windows whose overlapped sum is nearly zero are skipped"]
REQUIRED = ["block-wise bin compared", "stft bin compared", "reconstruction compared", "inverse stft compared", "inverse stft without padding", "padding", "no padding",
            "window longer than signal", "overlap zero", "multi-channel window", "offset remainder", "empty"]


def hann(n):
    return 0.5 - 0.5 * numpy.cos(2.0 * numpy.pi * numpy.arange(n) / n)


def window(ctx, channels, rate, length, overlap_samples, positive=False):
    """(what is passed to the methods, the window's samples per channel)"""
    r = ctx.rng
    form = r.choice(("int", "signal", "array", "list", "matrix", "multi", "multi signal", "tuple"))
    if form == "int":
        if length < 3 and overlap_samples:
            form = "array"
        else:
            w = numpy.ones((1, length)) if overlap_samples == 0 else hann(length)[None]
            return form, length, w
    n = channels if form in ("multi", "multi signal") else 1
    kind = r.choice(("hann", "random", "ones", "random"))
    if kind == "hann" and length > 2:
        w = numpy.array([hann(length) * (i + 1) for i in range(n)])
    elif kind == "ones":
        w = numpy.ones((n, length)) * r.choice((1.0, 0.5))
    else:
        w = ctx.np.uniform(0.2, 1.5, (n, length))
    if form in ("signal", "multi signal"):
        given = sumpf.Signal(channels=w.copy(), sampling_rate=rate if r.random() < 0.7 else gen.rate(ctx), offset=r.choice((0, 0, 3)))
    elif form in ("matrix", "multi"):
        given = w.copy()
    elif form == "array":
        given = w[0].copy()
    elif form == "tuple":
        given = tuple(tuple(float(x) for x in c) for c in w)
    else:
        given = [float(x) for x in w[0]]
    if n > 1:
        ctx.event("multi-channel window")
    return form, given, w


def overlap(ctx, length):
    """(what is passed, the overlap in samples)"""
    r = ctx.rng
    o = r.choice((0, length // 2, length // 2, length // 3, length - 1, r.randrange(length), (3 * length) // 4))
    form = r.choice(("int", "int", "float", "negative"))
    if form == "float" and int(round((o / length) * length)) == o:
        return form, o / length, o
    if form == "negative" and o > 0:
        return form, o - length, o
    return "int", o, o


def make(ctx):
    r = ctx.rng
    w = r.choice((2, 3, 4, 5, 6, 8, 9, 12, 16, 17, 31, r.randint(2, 40)))
    of, ov, o = overlap(ctx, w)
    step = w - o
    l = r.choice((r.randint(1, w), w, w - 1, w + 1, w + step, w + step - 1, w + 2 * step, w + 3 * step + 1, r.randint(1, 120), r.randint(1, 60)))
    l = max(l, 1)
    if getattr(ctx, "big", 0):
        w = r.choice((64, 65, 100, 128, 250, 256, 257, 500, 512))
        of, ov, o = overlap(ctx, w)
        step = w - o
        l = max(1, min(gen.extent(ctx, 2000), 60 * step + 7))
    a = gen.signal(ctx, channels=r.choice((1, 1, 2, 3)), length=l, off=r.choice((0, 0, step * r.randint(-9, 9), r.randint(-40, 40), r.randint(-3000, 3000))))
    wf, given, values = window(ctx, len(a), a.sampling_rate(), w, o)
    if o == 0:
        ctx.event("overlap zero")
    if w > l:
        ctx.event("window longer than signal")
    return a, wf, given, values, of, ov, o, step, w


def blockwise(ctx):
    r = ctx.rng
    a, wf, given, wv, of, ov, o, step, w = make(ctx)
    pad = r.random() < 0.65
    ctx.event("padding" if pad else "no padding")
    l = a.length()
    gen.warm(ctx, a.fourier_transform, lambda: a.fourier_transform(given, ov, not pad), lambda: a.fourier_transform(given, 0, pad), lambda: a.fourier_transform(given, w // 2, pad), lambda: a.fourier_transform(w, ov, pad), lambda: a.fourier_transform(w + 2, ov, pad),
             lambda: (a * 2.0).fourier_transform(given, ov, pad))
    if len(wv) == 1 and r.random() < 0.1 and ov == w // 2 == w / 2 and pad:
        s = a.fourier_transform(given) if r.random() < 0.5 else a.fourier_transform(window=given, overlap=0.5)
    else:
        s = a.fourier_transform(window=given, overlap=ov, pad=pad)
    c = max(len(a), len(wv))
    bins = w // 2 + 1
    what = f"{gen.describe(a)}.fourier_transform(window={wf} of length {w}, overlap={ov}, pad={pad})"
    ctx.check(s.shape() == (c, bins) and s.labels() == a.labels(), lambda: f"{what}: {gen.describe(s)}")
    ctx.check(math.isclose(s.resolution(), a.sampling_rate() / w, rel_tol=1e-12), lambda: f"{what}: resolution {s.resolution()}")
    # the level of the overlapped windows
    level = numpy.zeros((len(wv), w))
    for k in range(-w, w + 1):
        i = k * step
        x, y = max(0, i), min(w, i + w)
        if x < y:
            level[:, x:y] += wv[:, x - i:y - i]
    total = level.sum(axis=1)
    if (abs(total) < 1e-3).any():
        return
    x = a.channels()
    wc = numpy.broadcast_to(wv, (len(a), w))
    m = numpy.arange(bins)
    expected = numpy.zeros((c, bins), dtype=complex)
    blocks = 0
    for k in range(-w, l + 1):
        i = k * step
        if pad:
            if i + w <= 0 or i >= l:
                continue
        elif i < 0 or i + w > l:
            continue
        blocks += 1
        for n in range(w):
            if 0 <= i + n < l:
                t = a.offset() + i + n
                expected += (wc[:, n] * x[:, i + n])[:, None] * numpy.exp(-2j * numpy.pi * ((m * (t % w)) % w) / w)
    expected *= (w / total)[:, None] if len(wv) > 1 else w / total[0]
    scale = max(numpy.max(abs(expected)), abs(x).max())
    ctx.event("block-wise bin compared", expected.size)
    ctx.check(abs(s.channels() - expected).max() <= scale * (1e-10 + 1e-14 * abs(a.offset())), lambda: f"{what}: {gen.diff(s.channels(), expected)} ({blocks} blocks)")
    ctx.sign("block-wise", wf, of, pad, min(l // w, 3), (l - w) % step == 0, o == 0, min(w // step, 4), a.offset() == 0, w % 2)
    ctx.note(f"{what}: {blocks} blocks")


def frames(x, wv, w, step, pad):
    """the direct windowed Fourier sums; (channels, bins, frames)"""
    c, l = x.shape
    if pad:
        h = w // 2
        y = numpy.concatenate([numpy.zeros((c, h)), x, numpy.zeros((c, h))], axis=1)
        extra = (-(y.shape[1] - w) % step) % w
        y = numpy.concatenate([y, numpy.zeros((c, extra))], axis=1)
    else:
        y = x
    count = (y.shape[1] - w) // step + 1
    wc = numpy.broadcast_to(wv, (c, w))
    kernel = numpy.exp(-2j * numpy.pi * numpy.outer(numpy.arange(w // 2 + 1), numpy.arange(w)) / w)
    result = numpy.empty((c, w // 2 + 1, count), dtype=complex)
    for k in range(count):
        result[:, :, k] = (y[:, k * step:k * step + w] * wc) @ kernel.T / wc.sum(axis=1)[:, None]
    return result


def stft(ctx):
    r = ctx.rng
    a, wf, given, wv, of, ov, o, step, w = make(ctx)
    pad = r.random() < 0.7
    l = a.length()
    if not pad and l < w:
        return
    if pad and l + 2 * (w // 2) < w:
        return
    ctx.event("padding" if pad else "no padding")
    gen.warm(ctx, lambda: a.short_time_fourier_transform(given, ov, not pad), lambda: a.short_time_fourier_transform(given, 0, pad), lambda: a.short_time_fourier_transform(given, w // 2, pad), lambda: a.short_time_fourier_transform(w, ov, pad), lambda: a.short_time_fourier_transform(w + 2, ov, pad),
             lambda: (a * 2.0).short_time_fourier_transform(given, ov, pad))
    try:
        g = a.short_time_fourier_transform(window=given, overlap=ov, pad=pad)
    except ValueError:
        if l < w:       # SciPy rejects windows, that are longer than the signal
            ctx.event("short signal rejected")
            return
        raise
    what = f"{gen.describe(a)}.short_time_fourier_transform(window={wf} of length {w}, overlap={ov}, pad={pad})"
    expected = frames(a.channels(), wv, w, step, pad)
    o_ = a.offset()
    ctx.check(g.shape() == expected.shape and g.labels() == a.labels(), lambda: f"{what}: {gen.describe(g)} instead of {expected.shape}")
    ctx.check(math.isclose(g.resolution(), a.sampling_rate() / w, rel_tol=1e-12) and math.isclose(g.sampling_rate(), a.sampling_rate() / step, rel_tol=1e-12), lambda: f"{what}: {gen.describe(g)}")
    ctx.check(abs(g.offset() - o_ / step) <= 0.5 + 1e-9 and g.offset() == int(g.offset()), lambda: f"{what}: offset {g.offset()} for step {step}")
    rem = o_ - int(g.offset()) * step
    if rem:
        ctx.event("offset remainder")
    phase = numpy.exp(-2j * numpy.pi * ((numpy.arange(w // 2 + 1) * (rem % w)) % w) / w)
    expected = expected * phase[None, :, None]
    ctx.event("stft bin compared", expected.size)
    ctx.check(gen.close_scaled(g.channels(), expected, 1e-10), lambda: f"{what}: offset {g.offset()}, remainder {rem}: {gen.diff(g.channels(), expected)}")
    ctx.sign("stft", wf, of, pad, min(l // w, 3), (l - w) % step == 0, o == 0, min(w // step, 4), rem == 0, w % 2)
    ctx.note(what)
    # reconstruction
    power = numpy.zeros((len(wv), step))
    for n in range(w):
        power[:, n % step] += wv[:, n] ** 2
    if rem or not pad or power.min() < 1e-3 * (wv ** 2).max():
        return
    gen.warm(ctx, lambda: g.inverse_short_time_fourier_transform(given, ov, False), lambda: g.inverse_short_time_fourier_transform(given, 0), lambda: g.inverse_short_time_fourier_transform(w, ov), lambda: (g * 2.0).inverse_short_time_fourier_transform(given, ov))
    b = g.inverse_short_time_fourier_transform(window=given, overlap=ov)
    ctx.event("reconstruction compared")
    what += ".inverse_short_time_fourier_transform(...)"
    ctx.check(len(b) == len(a) and b.length() >= l and b.labels() == a.labels(), lambda: f"{what}: {gen.describe(b)}")
    ctx.check(math.isclose(b.sampling_rate(), a.sampling_rate(), rel_tol=1e-12), lambda: f"{what}: {gen.describe(b)}")
    ctx.check(b.offset() == a.offset(), lambda: f"{what}: offset {b.offset()} instead of {a.offset()}")
    ctx.check(gen.close_scaled(b.channels()[:, 0:l], a.channels(), 1e-8), lambda: f"{what}: {gen.diff(b.channels()[:, 0:l], a.channels())}")
    if b.length() > l:
        rest = b.channels()[:, l:]
        ctx.check(abs(rest).max() <= 1e-8 * abs(a.channels()).max(), lambda: f"{what}: the samples behind the signal's end are not zero: {rest}")


def istft(ctx):
    """arbitrary spectrograms: the weighted overlap-add of the frames' inverse Fourier sums"""
    r = ctx.rng
    w = r.choice((2, 4, 6, 8, 10, 16))
    of, ov, o = overlap(ctx, w)
    step = w - o
    g = gen.spectrogram(ctx, channels=r.choice((1, 2, 3)), frequencies=w // 2 + 1, length=w // step + r.randint(1, 9), off=r.randint(-9, 9))
    wf, given, wv = window(ctx, len(g), g.sampling_rate(), w, o)
    power = numpy.zeros((len(wv), step))
    for n in range(w):
        power[:, n % step] += wv[:, n] ** 2
    if power.min() < 1e-3 * (wv ** 2).max():
        return
    pad = r.random() < 0.7
    gen.warm(ctx, lambda: g.inverse_short_time_fourier_transform(given, ov, not pad), lambda: g.inverse_short_time_fourier_transform(given, 0, pad), lambda: g.inverse_short_time_fourier_transform(w, ov, pad), lambda: (g * 2.0).inverse_short_time_fourier_transform(given, ov, pad))
    b = g.inverse_short_time_fourier_transform(given, ov, *((True,) if r.random() < 0.3 else ())) if pad else g.inverse_short_time_fourier_transform(window=given, overlap=ov, pad=False)
    if not pad:
        ctx.event("inverse stft without padding")
    what = f"{gen.describe(g)}.inverse_short_time_fourier_transform({wf} of length {w}, {ov}, pad={pad})"
    c, f, l = g.shape()
    wc = numpy.broadcast_to(wv, (c, w))
    total = numpy.zeros((c, (l - 1) * step + w))
    norm = numpy.zeros_like(total)
    k = numpy.arange(f)[:, None]
    weight = numpy.full(f, 2.0)
    weight[0] = weight[-1] = 1.0
    phase = 2.0 * numpy.pi * ((k * numpy.arange(w)[None, :]) % w) / w
    for i in range(l):
        X = g.channels()[:, :, i]
        x = ((X.real * weight) @ numpy.cos(phase) - (X.imag * weight) @ numpy.sin(phase)) / w * wc.sum(axis=1)[:, None]
        total[:, i * step:i * step + w] += x * wc
        norm[:, i * step:i * step + w] += wc ** 2
    h = w // 2
    if pad:
        total, norm = total[:, h:total.shape[1] - h], norm[:, h:norm.shape[1] - h]
    good = norm > 1e-6
    expected = total / numpy.where(good, norm, 1.0)
    ctx.check(b.shape() == expected.shape and b.labels() == g.labels() and b.offset() == g.offset() * step and math.isclose(b.sampling_rate(), g.sampling_rate() * step, rel_tol=1e-12),
              lambda: f"{what}: {gen.describe(b)}")
    ctx.event("inverse stft compared", expected.size)
    ctx.check(gen.close_scaled(numpy.where(good, b.channels(), 0.0), numpy.where(good, expected, 0.0), 1e-9), lambda: f"{what}: {gen.diff(b.channels(), expected)}")
    ctx.sign("istft", wf, of, pad, o == 0, min(w // step, 4), c)


def realistic(ctx):
    """longer signals with the default parameters and with common window functions"""
    r = ctx.rng
    l = r.choice((5000, 8192, 9000, r.randint(4096, 12000)))
    a = sumpf.Signal(channels=ctx.np.standard_normal((r.choice((1, 2)), l)), sampling_rate=48000.0, offset=r.choice((0, 2048, -4096)), labels=("x",))
    g = a.short_time_fourier_transform()
    b = g.inverse_short_time_fourier_transform()
    ctx.event("reconstruction compared")
    ctx.check(b.offset() == a.offset() and gen.close_scaled(b.channels()[:, 0:l], a.channels(), 1e-9), lambda: f"default short time Fourier transform of {gen.describe(a)} forth and back: {gen.describe(b)}")
    w = r.choice((256, 512, 1000))
    x = r.choice((sumpf.HannWindow, sumpf.HammingWindow, sumpf.BlackmanWindow, sumpf.BartlettWindow))(length=w, symmetric=False)
    ov = r.choice((0.5, 0.75, w // 4))
    g = a.short_time_fourier_transform(window=x, overlap=ov)
    b = g.inverse_short_time_fourier_transform(window=x, overlap=ov)
    if ov != w // 4 and a.offset() % (w - int(round(ov * w))) == 0:
        ctx.check(b.offset() == a.offset() and gen.close_scaled(b.channels()[:, 0:l], a.channels(), 1e-7), lambda: f"{type(x).__name__} {w} {ov}: short time Fourier transform of {gen.describe(a)} forth and back: {gen.describe(b)}")
    # an impulse anywhere keeps its energy in the block-wise transform with a constant overlap-add window
    p = r.randrange(l)
    imp = numpy.zeros((1, l))
    imp[0, p] = 1.0
    s = sumpf.Signal(channels=imp, offset=r.choice((0, 17))).fourier_transform(window=r.choice((4096, w)), overlap=0.5)
    ctx.event("block-wise bin compared", s.length())
    ctx.check(gen.close(abs(s.channels()), numpy.ones(s.shape()), 1e-9), lambda: f"an impulse at sample {p} of {l} has the block-wise spectrum {s.magnitude()[0][0:4]}...")
    ctx.sign("realistic", l, w, ov)


def empty(ctx):
    """signals and windows without samples or channels"""
    r = ctx.rng
    c, n = r.choice(((0, 0), (0, 5), (2, 0), (1, 0), (3, 7)))
    w = r.choice((1, 2, 7, 16)) if c == 0 or n == 0 else 0
    a = sumpf.Signal(channels=numpy.zeros((c, n)), sampling_rate=gen.rate(ctx), offset=r.randint(-5, 5), labels=gen.labels(ctx, c))
    rate = gen.rate(ctx)
    window_ = sumpf.Signal(channels=numpy.ones((1, w)), sampling_rate=rate)
    if n == 0 and c:
        window_ = r.choice((window_, w)) if w > 2 else window_
    s = a.fourier_transform(window=window_, overlap=0 if w < 2 else r.choice((0, 0.5, w // 2)))
    ctx.event("empty")
    ctx.check(s.shape() == (max(c, 1), w // 2 + 1) and not s.channels().any() and s.resolution() == a.sampling_rate() / max(w, 1),
              lambda: f"block-wise transform of {gen.describe(a)} with a window of length {w}: {gen.describe(s)}")
    ctx.sign("empty", c, n, w)


SCENARIOS = [("empty", empty, 60, 400), ("block-wise", blockwise, 1500, 25000), ("stft", stft, 1500, 25000), ("istft", istft, 400, 6000), ("realistic", realistic, 40, 400),
             ("large block-wise", gen.big(blockwise, 20000), 8, 80), ("large stft", gen.big(stft, 20000), 8, 80)]
