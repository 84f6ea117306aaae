"""The workload of the agents (see agent.py): each function is executed with the same random numbers in several processes."""
import os
import numpy
import sumpf
from . import gen
from . import live


class Raw:
    """a result, that is returned to the check as it is"""

    def __init__(self, value):
        self.value = value


def operation(ctx, _directory, index):
    op = live.OPS[index] if index < len(live.OPS) else live.op_persist
    _name, _operands, call = op(ctx, lambda kind: live.MAKE[kind](ctx))
    result = call()
    return result if not hasattr(result, "__next__") else None


def statistics(ctx, _directory, name):
    """a method of a signal"""
    s = gen.signal(ctx, max_length=40)
    return getattr(s, name)()


def stft(ctx, _directory, inverse):
    r = ctx.rng
    n = 2 * r.randint(2, 8)
    if inverse:
        s = gen.spectrogram(ctx, frequencies=n // 2 + 1)
        return s.inverse_short_time_fourier_transform(window=n, overlap=0.5)
    return gen.signal(ctx, length=r.randint(20, 60)).short_time_fourier_transform(window=n, overlap=0.5)


def fourier(ctx, _directory):
    s = gen.signal(ctx, max_length=30)
    f = s.fourier_transform()
    return (f, f.inverse_fourier_transform(), s.level(), s.mean(), s.variance(), s.standard_deviation())


def sweep(ctx, _directory, name):
    r = ctx.rng
    length = r.choice((100, 8191, 8192, 8193, 8194, 10000, 16385, 30000))
    rate = r.choice((48000.0, 44100.0, 48000, 1000.0))
    start = r.uniform(0.001, 0.1) * rate
    stop = r.uniform(0.15, 0.6) * rate
    if r.random() < 0.25:
        start, stop = stop, start
    interval = r.choice(((0, 1.0), (0, 1.0), (0.1, 0.9), (100, -200), (0.0, -1)) if length > 1000 else ((0, 1.0),))
    kw = dict(start_frequency=start, stop_frequency=stop, interval=interval, sampling_rate=rate, length=length)
    if "Inverse" not in name or r.random() < 0.5:
        kw["phase"] = r.choice((0.0, 1.2, -0.4))
    try:
        s = getattr(sumpf, name)(**kw)
    except TypeError:
        kw.pop("phase")
        s = getattr(sumpf, name)(**kw)
    return (s, s.minimum_frequency(), s.maximum_frequency(), s.instantaneous_frequency(s.time_samples()[0:-1:97]))


def create(ctx, _directory, name):
    """an instance of one of the classes, that can be created without parameters"""
    r = ctx.rng
    cls = getattr(sumpf, name)
    kw = {}
    for key, value in (("length", r.choice((20, 33, 64))), ("seed", r.randrange(100)), ("sampling_rate", r.choice((48000.0, 100.0)))):
        if key == "seed" or r.random() < 0.8:
            kw[key] = value
    for keys in (("length", "seed", "sampling_rate"), ("length", "sampling_rate"), ("length",), ()):
        try:
            return cls(**{k: kw[k] for k in keys if k in kw})
        except TypeError:
            if not keys:
                raise
    return None


def window(ctx, _directory, name):
    r = ctx.rng
    kw = dict(plateau=r.choice((0, 0, 1, 2, 5)), sampling_rate=100.0, length=r.choice((16, 21, 40)), symmetric=r.random() < 0.5)
    if name == "KaiserWindow":
        kw["beta"] = r.uniform(0.5, 9.0)
    w = getattr(sumpf, name)(**kw)
    return (w, w.scaling_factor(0.5), w.recommended_overlap(), w.bandwidth())


def harmonic(ctx, _directory, name):
    r = ctx.rng
    s = getattr(sumpf, name)(start_frequency=20.0, stop_frequency=4000.0, sampling_rate=10000.0, length=r.choice((4096, 9000)))
    i = getattr(sumpf, "Inverse" + name)(start_frequency=20.0, stop_frequency=4000.0, sampling_rate=10000.0, length=s.length())
    ir = (s + 0.1 * s ** 2).convolve(i)
    return (ir, sumpf.ExponentialSweep.harmonic_impulse_response(s, ir, 2, 100) if name == "ExponentialSweep" else None)


def filters(ctx, _directory):
    r = ctx.rng
    f = live.make_filter(ctx)
    g = live.make_filter(ctx)
    f = r.choice((lambda: f + g, lambda: f * 2.0, lambda: f * g, lambda: -f))()
    s = gen.signal(ctx, length=2 * r.randint(4, 20))
    return (f, f.spectrum(resolution=2.0, length=20), s.fourier_transform())


def jack_block(_ctx, _directory):
    return sumpf.Jack.__name__


# ------------------------------------------------------------------ files

def make(ctx, kind, even):
    r = ctx.rng
    if kind == "Signal":
        n = r.choice((2, 4, 10, 50, 2048, 4098) if even else (2, 3, 10, 50, 2048, 4097))
        c = r.choice((1, 1, 2, 3))
        data = ctx.np.uniform(-1.0, 1.0, (c, n)) * r.choice((0.99, 0.5, 0.01))
        return sumpf.Signal(channels=data, sampling_rate=r.choice((48000.0, 44100.0, 8000.0)), offset=0, labels=gen.labels(ctx, c))
    if kind == "Bands":
        return live.make_bands(ctx)
    if kind == "Filter":
        return sumpf.ButterworthFilter(cutoff_frequency=r.uniform(10, 5000), order=r.randint(1, 5), highpass=r.random() < 0.5)
    return {"Spectrum": lambda: gen.spectrum(ctx, length=r.randint(2, 9)), "Spectrogram": lambda: gen.spectrogram(ctx, frequencies=r.randint(2, 5), length=r.randint(2, 5))}[kind]()


def save(ctx, directory, kind, fmt, ending):
    """returns the content of the file and what is loaded from it"""
    data = make(ctx, kind, "AIFF" in (fmt or "") or ".ai" in ending)      # AIFF files with an odd number of bytes are a known finding of S13
    path = os.path.join(directory, "x" + ending)
    if fmt is None:
        data.save(path)
    else:
        data.save(path, getattr(data.file_formats, fmt))
    with open(path, "rb") as f:
        content = f.read()
    from .agent import plain
    return Raw((plain(data, sumpf, numpy), content, plain(getattr(sumpf, kind).load(path), sumpf, numpy)))


def load(_ctx, directory, kind, content, ending):
    path = os.path.join(directory, "x" + ending)
    with open(path, "wb") as f:
        f.write(content)
    return getattr(sumpf, kind).load(path)
