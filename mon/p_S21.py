"""S21: synthetic signals have their specified samples and are reproducible."""
import concurrent.futures
import math
import random
import subprocess
import sys
import numpy
import scipy.stats
import sumpf
from . import gen

PROPERTY = "S21"
RULE = ("every noise class with random parameters: two instances with the same seed, between which other noise, NumPy's and Python's global random generators and threads have been used, have to be bit-identical, and a process of "
        "its own has to generate the same samples; the empirical distribution of many samples is compared to the distribution function with the Dvoretzky-Kiefer-Wolfowitz bound (false alarm probability below 1e-12 per test), "
        "neighboring samples have to be uncorrelated in their ranks; maximum length sequences are judged by their period, balance, run lengths and periodic autocorrelation; waves, fades, constants and Rudin-Shapiro spectrums are "
        "compared sample by sample to scalar definitions.  Distinct by generator, parameter class and relation of the intervals")
ASSUMPTIONS = ["the shift register of a maximum length sequence has at least two bits", "the sign of a square wave is not judged, where the sine is zero up to rounding",
               "each fade interval starts before it ends, and ends within the signal", "the start frequency of a Rudin-Shapiro spectrum is not above its stop frequency",
               "fades that overlap are multiplied, when the fade in starts first, and added otherwise"]


def cdfs():
    """name: (class, function that draws the parameters, the distribution from the parameters)"""
    st = scipy.stats
    return {
        "Uniform": (sumpf.UniformNoise, lambda r: (lambda a, b: {"lower_boundary": min(a, b), "upper_boundary": max(a, b)})(r.uniform(-9, 9), r.uniform(-9, 9)), lambda p: st.uniform(p["lower_boundary"], p["upper_boundary"] - p["lower_boundary"]), {"lower_boundary": -1.0, "upper_boundary": 1.0}),
        "Gaussian": (sumpf.GaussianNoise, lambda r: {"mean": r.uniform(-5, 5), "standard_deviation": r.uniform(0.1, 5)}, lambda p: st.norm(p["mean"], p["standard_deviation"]), {"mean": 0.0, "standard_deviation": 1.0}),
        "Poisson": (sumpf.PoissonNoise, lambda r: {"lambda_": r.uniform(0.1, 30)}, lambda p: st.poisson(p["lambda_"]), {"lambda_": 0.0}),
        "Laplace": (sumpf.LaplaceNoise, lambda r: {"mean": r.uniform(-5, 5), "decay": r.uniform(0.1, 5)}, lambda p: st.laplace(p["mean"], p["decay"]), {"mean": 0.0, "decay": 1.0}),
        "VonMises": (sumpf.VonMisesNoise, lambda r: {"mode": r.uniform(-3, 3), "dispersion": r.uniform(0.1, 8)}, lambda p: p, {"mode": 0.0, "dispersion": 1.0}),
        "Triangular": (sumpf.TriangularNoise, triangular, triangular_distribution, {"lower_boundary": -1.0, "upper_boundary": 1.0}),
        "Geometric": (sumpf.GeometricNoise, lambda r: {"p": r.uniform(0.05, 0.95)}, lambda p: st.geom(p["p"]), {"p": 0.5}),
        "Hypergeometric": (sumpf.HypergeometricNoise, hypergeometric, lambda p: st.hypergeom(p["acceptable"] + p["non_acceptable"], p["acceptable"], p["draws"]), {"acceptable": 1, "non_acceptable": 1, "draws": 1}),
        "Binomial": (sumpf.BinomialNoise, lambda r: {"p": r.uniform(0.05, 0.95), "draws": r.randint(1, 40)}, lambda p: st.binom(p["draws"], p["p"]), {"p": 0.5, "draws": 1}),
        "Beta": (sumpf.BetaNoise, lambda r: {"alpha": r.uniform(0.3, 6), "beta": r.uniform(0.3, 6)}, lambda p: st.beta(p["alpha"], p["beta"]), {"alpha": 1.0, "beta": 1.0}),
        "Gamma": (sumpf.GammaNoise, lambda r: {"shape": r.uniform(0.3, 6), "scale": r.uniform(0.3, 6)}, lambda p: st.gamma(p["shape"], scale=p["scale"]), {"shape": 1.0, "scale": 1.0}),
        "Logarithmic": (sumpf.LogarithmicNoise, lambda r: {"p": r.uniform(0.05, 0.95)}, lambda p: st.logser(p["p"]), {"p": 0.5}),
        "Logistic": (sumpf.LogisticNoise, lambda r: {"mean": r.uniform(-5, 5), "scale": r.uniform(0.1, 5)}, lambda p: st.logistic(p["mean"], p["scale"]), {"mean": 0.0, "scale": 1.0}),
        "Lomax": (sumpf.LomaxNoise, lambda r: {"shape": r.uniform(0.5, 6)}, lambda p: st.lomax(p["shape"]), {"shape": 1.0}),
        "Wald": (sumpf.WaldNoise, lambda r: {"mean": r.uniform(0.3, 6), "scale": r.uniform(0.3, 6)}, lambda p: st.invgauss(p["mean"] / p["scale"], scale=p["scale"]), {"mean": 1.0, "scale": 1.0}),
        "ChiSquare": (sumpf.ChiSquareNoise, lambda r: {"degrees_of_freedom": r.uniform(0.5, 12)}, lambda p: st.chi2(p["degrees_of_freedom"]), {"degrees_of_freedom": 1.0}),
    }


def triangular(r):
    a, b = sorted((r.uniform(-9, 9), r.uniform(-9, 9)))
    if r.random() < 0.5:
        return {"lower_boundary": a, "upper_boundary": b}
    return {"lower_boundary": a, "upper_boundary": b, "mode": r.choice((a, b, r.uniform(a, b), r.uniform(a, b)))}


def triangular_distribution(p):
    a, b = p["lower_boundary"], p["upper_boundary"]
    mode = (a + b) / 2.0 if p.get("mode") is None else p["mode"]
    return scipy.stats.triang(min(1.0, max(0.0, (mode - a) / (b - a))), a, b - a)


def hypergeometric(r):
    a, b = r.randint(1, 40), r.randint(1, 40)
    return {"acceptable": a, "non_acceptable": b, "draws": r.randint(1, a + b - 1)}


NOISES = cdfs()
DISCRETE = ("Poisson", "Geometric", "Hypergeometric", "Binomial", "Logarithmic")
FADE_FUNCTIONS = (numpy.ones, numpy.bartlett, numpy.hanning, numpy.hamming, numpy.blackman)
REQUIRED = ([f"distribution:{n}" for n in NOISES] + [f"reproduced:{n}" for n in NOISES] +
            ["another process", "several threads", "numpy's global generator untouched", "seeds differ", "unseeded noises differ", "mls period", "mls autocorrelation", "mls cropped", "mls repeated", "mls default bits", "sine", "square wave", "long wave",
             "constant signal", "constant spectrum", "constant spectrogram", "rudin-shapiro", "rudin-shapiro cropped", "Fade", "Fade in", "Fade out", "Fade in-out", "Fade out-in", "fades overlap", "fade is nested", "contiguous fades",
             "negative index", "fractional index", "single index", "defaults"])


def von_mises(x, mode, kappa):
    """the cumulative distribution in the interval from -pi to pi by numerical integration"""
    n = 20000
    t = numpy.linspace(-math.pi, math.pi, n + 1)
    d = numpy.exp(kappa * (numpy.cos(t - mode) - 1.0))
    c = numpy.concatenate(([0.0], numpy.cumsum(0.5 * (d[1:] + d[:-1]))))
    return numpy.interp(x, t, c / c[-1])


def seed_of(r):
    return r.choice((0, 1, 42, r.randrange(2 ** 32), r.randrange(2 ** 80), [r.randrange(100), r.randrange(2 ** 32)]))


def disturb(r):
    """uses everything, that might share a state with the generators"""
    numpy.random.seed(r.randrange(2 ** 31))
    numpy.random.uniform(size=r.randint(1, 5))
    random.seed(r.random())
    random.random()
    name = r.choice(list(NOISES))
    NOISES[name][0](seed=r.choice((None, r.randrange(1000))), length=r.randint(0, 20))
    if r.random() < 0.3:
        sumpf.MaximumLengthSequence(bits=r.randint(2, 8), seed=r.choice((None, r.randrange(1000))))


def metadata(ctx, what, x, rate, length):
    ctx.check(x.shape() == (1, length) and x.sampling_rate() == rate and x.offset() == 0 and len(x.labels()) == 1, lambda: f"{what} has the meta data {gen.describe(x)}")


def reproducible(ctx):
    r = ctx.rng
    name = r.choice(list(NOISES))
    cls, draw, _, _ = NOISES[name]
    p = draw(r) if r.random() < 0.8 else {}
    seed, length, rate = seed_of(r), gen.size(ctx, r.choice((0, 1, 2, 3, 100, r.randint(0, 3000)))), gen.rate(ctx)
    arguments = dict(p, seed=seed, sampling_rate=rate, length=length)
    what = f"{cls.__name__}({arguments})"
    ctx.note(what)
    state = numpy.random.get_state()[1].copy()
    a = cls(**arguments)
    ctx.check((numpy.random.get_state()[1] == state).all(), lambda: f"{what} uses NumPy's global random number generator")
    ctx.event("numpy's global generator untouched")
    metadata(ctx, what, a, rate, length)
    ctx.check(a.seed() == seed, lambda: f"{what}.seed() is {a.seed()!r}")
    first = a.channels().copy()
    for _ in range(r.randint(0, 3)):
        disturb(r)
    if r.random() < 0.15:
        ctx.event("several threads")
        with concurrent.futures.ThreadPoolExecutor(4) as pool:
            futures = [pool.submit(lambda: cls(**arguments)) for _ in range(6)]
            for _ in range(2):
                disturb(r)
            others = [f.result() for f in futures]
    else:
        others = [cls(**arguments)]
    for b in others:
        ctx.check(gen.exact(b.channels(), first) and b == a, lambda: f"{what} is not reproduced: {gen.diff(b.channels(), first)}")
    ctx.check(gen.exact(a.channels(), first), lambda: f"{what} has been changed by another noise")
    ctx.event(f"reproduced:{name}")
    # the parameter has got an effect
    if length >= 100 and len(set(first[0])) > 2:
        other = cls(**dict(arguments, seed=r.randrange(2 ** 32, 2 ** 33)))
        ctx.check(not gen.exact(other.channels(), first), lambda: f"{what} has the same samples with another seed")
        ctx.event("seeds differ")
        u = [cls(**dict(arguments, seed=None)) for _ in range(2)]
        ctx.check(not gen.exact(u[0].channels(), u[1].channels()), lambda: f"{cls.__name__} without a seed has got the same samples twice")
        ctx.event("unseeded noises differ")
    ctx.sign(name, bool(p), min(length, 4), type(seed).__name__)


def distribution(ctx):
    r = ctx.rng
    name = r.choice(list(NOISES))
    cls, draw, dist, default = NOISES[name]
    p = draw(r) if r.random() < 0.85 else {}
    n = 12000
    seed = r.randrange(2 ** 40)
    what = f"{cls.__name__}({p}, seed={seed}, length={n})"
    ctx.note(what)
    x = cls(**p, seed=seed, length=n).channels()[0]
    ctx.check(x.dtype == numpy.float64 and bool(numpy.isfinite(x).all()), lambda: f"{what}: the samples are not finite floats")
    q = dict(default, **p)
    bound = math.sqrt(math.log(2.0 / 1e-13) / (2.0 * n))
    if name == "Poisson" and q["lambda_"] == 0.0:
        ctx.check(bool((x == 0.0).all()), lambda: f"{what}: the samples are not zero")
        return
    s = numpy.sort(x)
    if name in DISCRETE:
        v, counts = numpy.unique(s, return_counts=True)
        ctx.check(bool((v == numpy.round(v)).all()), lambda: f"{what}: the samples are not integers")
        d = dist(q)
        distance = numpy.max(numpy.abs(numpy.cumsum(counts) / n - d.cdf(v)))
        distance = max(distance, numpy.max(numpy.abs((numpy.cumsum(counts) - counts) / n - d.cdf(v - 1.0))))
        impossible = d.pmf(v) == 0.0
        ctx.check(not impossible.any(), lambda: f"{what}: {v[impossible]} cannot occur")
    else:
        c = von_mises(s, q["mode"], q["dispersion"]) if name == "VonMises" else dist(q).cdf(s)
        if name == "VonMises":
            ctx.check(bool((numpy.abs(x) <= math.pi + 1e-12).all()), lambda: f"{what}: the samples are not between -pi and pi")
        else:
            low, high = dist(q).support()
            ctx.check(low <= s[0] and s[-1] <= high, lambda: f"{what}: the samples are not between {low} and {high}")
        i = numpy.arange(n)
        distance = max(numpy.max(numpy.abs(c - i / n)), numpy.max(numpy.abs(c - (i + 1) / n)))
    ctx.check(distance <= bound, lambda: f"{what}: the distribution deviates from the expected one by {distance:.4f}, allowed are {bound:.4f}")
    # neighboring samples are independent
    if len(set(s)) > 10:
        rank = scipy.stats.rankdata(x)
        rank -= rank.mean()
        for lag in (1, 2, r.randint(3, 50)):
            z = (rank[lag:] @ rank[:-lag]) / (rank @ rank) * math.sqrt(n)
            ctx.check(abs(z) < 8.0, lambda: f"{what}: samples with the lag {lag} are correlated ({z / math.sqrt(n):.3f})")
    ctx.event(f"distribution:{name}")
    ctx.sign(name, tuple(sorted(p)))


def process(ctx):
    """a process with another history generates the same samples"""
    r = ctx.rng
    lines, expected = [], []
    for name, (cls, draw, _, _) in NOISES.items():
        p = dict(draw(r), seed=r.randrange(2 ** 32), length=r.randint(1, 50))
        lines.append(f"print(sumpf.{cls.__name__}(**{p!r}).channels().tobytes().hex())")
        expected.append((f"{cls.__name__}({p})", cls(**p)))
    for bits in (2, 5, 9):
        seed = r.randrange(2 ** 32)
        lines.append(f"print(sumpf.MaximumLengthSequence(bits={bits}, seed={seed}).channels().tobytes().hex())")
        expected.append((f"MaximumLengthSequence(bits={bits}, seed={seed})", sumpf.MaximumLengthSequence(bits=bits, seed=seed)))
    order = list(range(len(lines)))
    r.shuffle(order)
    code = "import sys; sys.path.insert(0, %r)\nimport sumpf\n" % sys.modules["sumpf"].__path__[0].rsplit("/", 1)[0] + "\n".join(lines[i] for i in order)
    out = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, timeout=120, check=False)
    ctx.check(out.returncode == 0, lambda: f"the process failed: {out.stderr[-500:]}")
    for i, o in zip(order, out.stdout.split()):
        ctx.check(o == expected[i][1].channels().tobytes().hex(), lambda: f"{expected[i][0]} has other samples in another process")
    ctx.event("another process")
    ctx.sign("process")


def mls(ctx):
    r = ctx.rng
    bits = r.choice((2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12))
    period = 2 ** bits - 1
    seed = seed_of(r)
    rate = gen.rate(ctx)
    k = r.randrange(5)
    if k == 0:
        arguments, length = {"bits": bits}, period
    elif k == 1:
        length = r.choice((period, r.randint(2 ** (bits - 1), period)))
        arguments = {"length": length}
        ctx.event("mls default bits")
    else:
        length = r.choice((0, 1, 2, period - 1, period, period + 1, 2 * period, r.randint(0, 3 * period), r.randint(period, 4 * period)))
        arguments = {"bits": bits, "length": length}
    arguments = dict(arguments, seed=seed, sampling_rate=rate)
    what = f"MaximumLengthSequence({arguments})"
    ctx.note(what)
    a = sumpf.MaximumLengthSequence(**arguments)
    disturb(r)
    b = sumpf.MaximumLengthSequence(**arguments)
    ctx.check(gen.exact(a.channels(), b.channels()), lambda: f"{what} is not reproduced")
    metadata(ctx, what, a, rate, length)
    ctx.check(a.bits() == bits and a.period_length() == period and a.periods() == length / period, lambda: f"{what}: bits() is {a.bits()}, period_length() is {a.period_length()}, periods() is {a.periods()}")
    x = a.channels()[0]
    ctx.check(bool((numpy.abs(x) == 1.0).all()), lambda: f"{what} contains the values {set(x)}")
    whole = sumpf.MaximumLengthSequence(**dict(arguments, bits=bits, length=period)).channels()[0]
    ctx.check(gen.exact(x, numpy.resize(whole, length) if length else x), lambda: f"{what} is not the repeated or cropped sequence: {gen.diff(x, numpy.resize(whole, length))}")
    ctx.event("mls cropped" if length < period else "mls period" if length == period else "mls repeated")
    ctx.check(whole.sum() == 1.0, lambda: f"{what}: the sum of one period is {whole.sum()}")
    f = numpy.fft.fft(whole)
    acf = numpy.real(numpy.fft.ifft(f * numpy.conj(f)))
    ctx.check(abs(acf[0] - period) < 1e-6 and bool((numpy.abs(acf[1:] + 1.0) < 1e-6).all()), lambda: f"{what}: the periodic autocorrelation is not ideal")
    ctx.event("mls autocorrelation")
    # each pattern of the shift register except for zeros occurs exactly once per period
    windows = {tuple(numpy.take(whole, range(i, i + bits), mode="wrap")) for i in range(period)} if bits <= 9 else None
    ctx.check(windows is None or len(windows) == period, lambda: f"{what}: a state of the shift register is repeated within the period")
    ctx.sign("mls", bits, k, length < period, length > period)


def waves(ctx):
    r = ctx.rng
    rate = gen.rate(ctx)
    length = gen.size(ctx, r.choice((0, 1, 2, 3, r.randint(1, 200), r.randint(1, 200), r.randint(5000, 20000))))
    frequency = r.choice((0.0, rate / 4, rate / 3.0, rate / 2.0, r.uniform(0.0, rate / 2.0), r.uniform(0.0, rate * 3), 1000.0, 440, r.randint(1, 20), -r.uniform(0, rate)))
    phase = r.choice((0.0, math.pi / 2.0, math.pi / 4, r.uniform(-7, 7), 1, r.uniform(-100, 100)))
    square = r.random() < 0.5
    cls = sumpf.SquareWave if square else sumpf.SineWave
    what = f"{cls.__name__}(frequency={frequency}, phase={phase}, sampling_rate={rate}, length={length})"
    ctx.note(what)
    a = cls(frequency, phase, rate, length) if r.random() < 0.3 else cls(frequency=frequency, phase=phase, sampling_rate=rate, length=length)
    metadata(ctx, what, a, rate, length)
    ctx.check(math.isclose(a.periods(), length / rate * frequency, rel_tol=1e-12, abs_tol=1e-12), lambda: f"{what}.periods() is {a.periods()}")
    x = a.channels()[0]
    indices = range(length) if length <= 400 else sorted({0, 1, length - 1, length - 2, *(r.randrange(length) for _ in range(200))})
    for i in indices:
        argument = math.fmod(2.0 * math.pi * frequency * i / rate, 2.0 * math.pi) + phase
        e = math.sin(argument)
        tolerance = 1e-12 + 3e-15 * (abs(2.0 * math.pi * frequency * length / rate) + abs(phase))
        if square:
            if abs(e) > tolerance:
                ctx.check(x[i] == math.copysign(1.0, e), lambda: f"{what}: sample {i} is {x[i]}, the sine is {e}")
            else:
                ctx.check(abs(x[i]) <= 1.0, lambda: f"{what}: sample {i} is {x[i]}")
        else:
            ctx.check(abs(x[i] - e) <= tolerance, lambda: f"{what}: sample {i} is {x[i]} instead of {e}")
    ctx.event("square wave" if square else "sine")
    if length > 400:
        ctx.event("long wave")
    ctx.sign("wave", square, min(length, 4), length > 400, frequency > rate / 2.0, frequency < 0)


def constants(ctx):
    r = ctx.rng
    k = r.randrange(3)
    value = r.choice((0.0, 1.0, -2.5, r.uniform(-9, 9), 3, float("inf"), 1e-300, -0.0))
    if k and r.random() < 0.6:
        value = complex(r.uniform(-9, 9), r.uniform(-9, 9))
    n = gen.size(ctx, r.choice((0, 1, 2, r.randint(1, 50))))
    if k == 0:
        rate = gen.rate(ctx)
        a = sumpf.ConstantSignal(value=value, sampling_rate=rate, length=n)
        good = a.shape() == (1, n) and a.sampling_rate() == rate and a.offset() == 0
        ctx.event("constant signal")
    elif k == 1:
        rate = gen.rate(ctx)
        a = sumpf.ConstantSpectrum(value=value, resolution=rate, length=n)
        good = a.shape() == (1, n) and a.resolution() == rate
        ctx.event("constant spectrum")
    else:
        rate, resolution, m = gen.rate(ctx), gen.rate(ctx), r.choice((0, 1, 2, r.randint(1, 20)))
        a = sumpf.ConstantSpectrogram(value=value, resolution=resolution, sampling_rate=rate, number_of_frequencies=m, length=n)
        good = a.shape() == (1, m, n) and a.sampling_rate() == rate and a.resolution() == resolution and a.offset() == 0
        ctx.event("constant spectrogram")
    what = f"{type(a).__name__}({value})"
    ctx.check(good and len(a.labels()) == 1, lambda: f"{what} has the meta data {gen.describe(a)}")
    ctx.check(bool((a.channels() == value).all()), lambda: f"{what} contains {set(a.channels().flat)}")
    ctx.sign("constant", k, min(n, 3), type(value).__name__)


def rudin_shapiro(ctx):
    r = ctx.rng
    length = gen.size(ctx, r.choice((0, 1, 2, 3, 4, 5, 8, 16, 31, 64, r.randint(1, 300), r.randint(1, 3000))))
    resolution = gen.rate(ctx)
    whole = r.random() < 0.4
    if whole:
        start, stop, first, last = 0.0, None, 0, length
        arguments = {"resolution": resolution, "length": length}
    else:
        def near():     # a frequency, that is not exactly between two frequency bins
            i = r.choice((0, 1, 2, 3, length, length - 1, length + 3, r.randint(0, length), r.randint(0, length), r.randint(0, 2 * length)))
            i = max(i, 0)
            return i, max(0.0, (i + r.choice((0.0, 0.0, 0.3, -0.3, 0.45, -0.45))) * resolution)
        (first, start), (last, stop) = sorted((near(), near()))
        if stop < start:
            stop = start
        arguments = {"start_frequency": start, "stop_frequency": stop, "resolution": resolution, "length": length}
        if r.random() < 0.2:
            last = length
            del arguments["stop_frequency"]
        first, last = min(first, length), min(last, length)
        ctx.event("rudin-shapiro cropped")
    what = f"RudinShapiroNoiseSpectrum({arguments})"
    ctx.note(what)
    a = sumpf.RudinShapiroNoiseSpectrum(**arguments)
    ctx.check(a.shape() == (1, length) and a.resolution() == resolution and len(a.labels()) == 1, lambda: f"{what} has the meta data {gen.describe(a)}")
    ctx.check(a.sequence_length() == last - first, lambda: f"{what}.sequence_length() is {a.sequence_length()} instead of {last - first}")
    expected = numpy.zeros(length, dtype=complex)
    for i in range(first, last):    # the sign is given by the number of pairs of neighboring ones in the binary number
        j = i - first
        expected[i] = -1.0 if bin(j & (j >> 1)).count("1") % 2 else 1.0
    ctx.check(gen.exact(a.channels()[0], expected), lambda: f"{what}: {gen.diff(a.channels()[0], expected)}")
    ctx.check(gen.exact(sumpf.RudinShapiroNoiseSpectrum(**arguments).channels(), a.channels()), lambda: f"{what} is not reproduced")
    ctx.event("rudin-shapiro")
    ctx.sign("rs", min(length, 6), whole, last - first if last - first < 6 else 6, last == length, first == 0)


def ramp(n):
    """a function, whose fade in and fade out have different shapes, which depend on the length"""
    i = numpy.arange(n)
    return numpy.where(i < n // 2, (i + 0.25) / (n + 1.0), (0.9 - i / (n + 1.0)) ** 2)


def fades(ctx):
    r = ctx.rng
    function = r.choice(FADE_FUNCTIONS + (ramp, ramp))
    length = gen.size(ctx, r.choice((0, 1, 2, 3, 4, 5, 8, r.randint(1, 40), r.randint(1, 40), r.randint(1, 200))))
    rate = gen.rate(ctx)
    events = []

    def present(i, stop):
        """an index in another notation, that means the same sample"""
        k = r.randrange(4)
        if k == 0 and 0 < length and 0 <= i < length:
            events.append("negative index")
            return i - length
        if k == 1 and length:
            events.append("fractional index")
            f = i / length
            if abs(f * length - i) < 0.4:
                return f + r.choice((0.0, 0.3, -0.3)) / length if 0 < i < length else f
        if k == 2 and 0 < i < length:
            events.append("fractional index")
            return (i - length) / length
        return i

    def interval():
        a, b = sorted((r.randint(0, length), r.randint(0, length)))
        if r.random() < 0.1:
            b = a
        return a, b
    rise = interval() if r.random() < 0.85 else None
    fall = interval() if r.random() < 0.85 else None
    if rise and fall and r.random() < 0.5:
        # directed relations of the intervals
        k = r.randrange(6)
        if k == 0:      # contiguous
            fall = (rise[1], r.randint(rise[1], length))
            events.append("contiguous fades")
        elif k == 1:
            rise = (fall[1], r.randint(fall[1], length))
            events.append("contiguous fades")
        elif k == 2:    # nested
            fall = tuple(sorted((r.randint(*rise), r.randint(*rise))))
        elif k == 3:
            rise = tuple(sorted((r.randint(*fall), r.randint(*fall))))
        elif k == 4:
            n = min(rise[1] - rise[0], length - rise[1])
            fall = (rise[1], rise[1] + n)
        else:
            fall = rise if r.random() < 0.5 else (r.randint(*rise), rise[1]) if r.random() < 0.5 else (rise[0], r.randint(*rise))
    arguments = {"function": function, "sampling_rate": rate, "length": length}
    for name, i in (("rise_interval", rise), ("fall_interval", fall)):
        if i is None:
            if r.random() < 0.5:
                arguments[name] = None
        elif name == "rise_interval" and i[0] == 0 and r.random() < 0.6:
            arguments[name] = present(i[1], False)
            events.append("single index")
        elif name == "fall_interval" and i[1] == length and r.random() < 0.6:
            arguments[name] = present(i[0], False)
            events.append("single index")
        else:
            arguments[name] = r.choice((tuple, list))(present(j, False) for j in i)
    what = f"Fade(function={function.__name__}, rise_interval={arguments.get('rise_interval')}, fall_interval={arguments.get('fall_interval')}, length={length}) [rise {rise}, fall {fall}]"
    ctx.note(what)
    a = sumpf.Fade(**arguments)
    metadata(ctx, what, a, rate, length)

    def up(i):
        if rise is None:
            return None
        n = rise[1] - rise[0]
        return 0.0 if i < rise[0] else 1.0 if i >= rise[1] else float(function(2 * n)[i - rise[0]])

    def down(i):
        if fall is None:
            return None
        n = fall[1] - fall[0]
        return 1.0 if i < fall[0] else 0.0 if i >= fall[1] else float(function(2 * n)[n + i - fall[0]])
    if rise is None or fall is None:
        label = "Fade" if rise is fall is None else "Fade out" if rise is None else "Fade in"
        expected = [1.0 if rise is fall is None else down(i) if rise is None else up(i) for i in range(length)]
    elif rise[0] < fall[0] or (rise[0] == rise[1] == fall[0] != fall[1]):
        label = "Fade in-out"
        expected = [up(i) * down(i) for i in range(length)]
    else:
        label = "Fade out-in"
        expected = [up(i) + down(i) for i in range(length)]
    if rise and fall:
        if max(rise[0], fall[0]) < min(rise[1], fall[1]):
            events.append("fades overlap")
            if (rise[0] - fall[0]) * (rise[1] - fall[1]) < 0:
                events.append("fade is nested")
    ctx.check(a.labels() == (label,), lambda: f"{what} is labeled {a.labels()}")
    ctx.check(gen.close(a.channels()[0], numpy.array(expected, dtype=float).reshape(length), 1e-13, 1e-15), lambda: f"{what}: {gen.diff(a.channels()[0], expected)}")
    for e in events + [label]:
        ctx.event(e)
    ctx.sign("fade", label, min(length, 4), tuple(sorted(set(events))), function.__name__)


def defaults(ctx):
    for name, (cls, _, _, default) in NOISES.items():
        a = cls(seed=4711)
        ctx.check(a.shape() == (1, 2 ** 16) and a.sampling_rate() == 48000.0 and a.offset() == 0, lambda: f"{cls.__name__}(): {gen.describe(a)}")
        ctx.check(gen.exact(a.channels(), cls(**default, seed=4711).channels()), lambda: f"{cls.__name__} has got other default parameters than {default}")
        b = cls()
        ctx.check(b.seed() is None, lambda: f"{cls.__name__}().seed() is {b.seed()}")
    for cls, fn in ((sumpf.SineWave, math.sin), (sumpf.SquareWave, lambda x: math.copysign(1.0, math.sin(x)))):
        a = cls()
        ctx.check(a.shape() == (1, 2 ** 16) and a.sampling_rate() == 48000.0, lambda: f"{cls.__name__}(): {gen.describe(a)}")
        for i in (1, 7, 13, 65535, 30001):
            ctx.check(abs(a.channels()[0, i] - fn(2.0 * math.pi * 1000.0 * i / 48000.0)) < 1e-9, lambda: f"{cls.__name__}(): sample {i} is {a.channels()[0, i]}")
    for a, shape in ((sumpf.ConstantSignal(), (1, 2 ** 16)), (sumpf.ConstantSpectrum(), (1, 1)), (sumpf.ConstantSpectrogram(), (1, 2049, 32))):
        ctx.check(a.shape() == shape and not a.channels().any(), lambda: f"{type(a).__name__}(): {gen.describe(a)}")
    a = sumpf.MaximumLengthSequence()
    ctx.check(a.bits() == 16 and a.length() == 2 ** 16 - 1 and a.sampling_rate() == 48000.0, lambda: f"MaximumLengthSequence(): {gen.describe(a)}")
    a = sumpf.Fade()
    ctx.check(a.shape() == (1, 2 ** 16) and bool((a.channels() == 1.0).all()), lambda: f"Fade(): {gen.describe(a)}")
    a = sumpf.Fade(rise_interval=100, fall_interval=-100)
    ctx.check(gen.close(a.channels()[0], numpy.concatenate((numpy.blackman(200)[0:100], numpy.ones(2 ** 16 - 200), numpy.blackman(200)[100:])), 1e-12, 1e-15), lambda: "Fade(rise_interval=100, fall_interval=-100) is wrong")
    ctx.event("defaults")


SCENARIOS = [("reproducible", reproducible, 2500, 20000), ("distribution", distribution, 400, 4000), ("process", process, 4, 40), ("mls", mls, 1200, 8000), ("waves", waves, 2500, 20000),
             ("constants", constants, 800, 4000), ("rudin_shapiro", rudin_shapiro, 1500, 10000), ("fades", fades, 6000, 60000), ("large reproducible", gen.big(reproducible, 140000), 20, 200), ("large waves", gen.big(waves, 140000), 20, 200),
             ("large constants", gen.big(constants, 20011), 20, 200), ("large rudin_shapiro", gen.big(rudin_shapiro, 40000), 10, 100), ("large fades", gen.big(fades, 4096), 12, 200)]
PROBES = [("defaults", defaults)]
