"""S20: window functions match their definitions and metrics."""
import math
import numpy
import sumpf
from . import gen

PROPERTY = "S20"
RULE = ("windows of all classes, functions and parameters are created with random lengths (from 0), plateaus (integer, fractional, negative) in both variants and compared, sample by sample, to their mathematical "
        "definitions, which have been implemented independently with scalar arithmetic (the Slepian window is compared to the eigenvector equation, that defines it); the highest side lobes of the sum of cosine windows "
        "are compared to the published values; the metrics are compared to sums of explicitly overlapped windows and discrete Fourier sums.  Distinct by window, variant, length class, plateau class, metric")
ASSUMPTIONS = ["the plateau has one sample more than requested, when the remaining number of samples is odd", "plateaus and overlaps do not exceed the length", "for metrics of a sum of windows, that is zero somewhere, only the finite ones are judged"]
FT, NU = sumpf.FlatTopWindow.functions, sumpf.NuttallWindow.functions
# (the published coefficients of HFT169D are rounded, so that the published level of -169.5 dB is not reached)
# coefficients (a0, a1, ...) of w(z) = a0 - a1 cos(z) + a2 cos(2z) ..., and the published level of the highest side lobe in dB
COSINES = {
    "SFT3F": ((0.26526, 0.5, 0.23474), -31.7), "SFT4F": ((0.21706, 0.42103, 0.28294, 0.07897), -44.7), "SFT5F": ((0.1881, 0.36923, 0.28702, 0.13077, 0.02488), -57.3),
    "SFT3M": ((0.28235, 0.52105, 0.19659), -44.2), "SFT4M": ((0.241906, 0.460841, 0.255381, 0.041872), -66.5), "SFT5M": ((0.209671, 0.407331, 0.281225, 0.092669, 0.0091036), -89.9),
    "FTNI": ((0.2810639, 0.5208972, 0.1980399), -44.4), "FTHP": ((1.0, 1.912510941, 1.079173272, 0.1832630879), -70.4), "FTSRS": ((1.0, 1.93, 1.29, 0.388, 0.028), -76.6),
    "HFT70": ((1.0, 1.90796, 1.07349, 0.18199), -70.4), "HFT90D": ((1.0, 1.942604, 1.340318, 0.440811, 0.043097), -90.2), "HFT95": ((1.0, 1.9383379, 1.3045202, 0.4028270, 0.0350665), -95.0),
    "HFT116D": ((1.0, 1.9575375, 1.4780705, 0.6367431, 0.1228389, 0.0066288), -116.8), "HFT144D": ((1.0, 1.96760033, 1.57983607, 0.81123644, 0.22583558, 0.02773848, 0.00090360), -144.1),
    "HFT169D": ((1.0, 1.97441842, 1.65409888, 0.95788186, 0.33673420, 0.06364621, 0.00521942, 0.00010599), -167.9),
    "HFT196D": ((1.0, 1.979280420, 1.710288951, 1.081629853, 0.448734314, 0.112376628, 0.015122992, 0.000871252, 0.000011896), -196.2),
    "HFT223D": ((1.0, 1.98298997309, 1.75556083063, 1.19037717712, 0.56155440797, 0.17296769663, 0.03233247087, 0.00324954578, 0.00013801040, 0.00000132725), -223.0),
    "HFT248D": ((1.0, 1.985844164102, 1.791176438506, 1.282075284005, 0.667777530266, 0.240160796576, 0.056656381764, 0.008134974479, 0.000624544650, 0.000019808998, 0.000000132974), -248.4),
    "DEFAULT": ((0.21557895, 0.41663158, 0.277263158, 0.083578947, 0.006947368), None),
    "NUTTALL3": ((0.375, 0.5, 0.125), -46.7), "NUTTALL3A": ((0.40897, 0.5, 0.09103), -64.2), "NUTTALL3B": ((0.4243801, 0.4973406, 0.0782793), -71.5), "NUTTALL4": ((0.3125, 0.46875, 0.1875, 0.03125), -60.9),
    "NUTTALL4A": ((0.338946, 0.481973, 0.161054, 0.018027), -82.6), "NUTTALL4B": ((0.355768, 0.487396, 0.144232, 0.012604), -93.3), "NUTTALL4C": ((0.3635819, 0.4891775, 0.1365995, 0.0106411), -98.1),
    "Hann": ((0.5, 0.5), -31.5), "Hamming": ((0.54, 0.46), -42.7), "Blackman": ((0.42, 0.5, 0.08), -58.1), "BlackmanHarris": ((0.35875, 0.48829, 0.14128, 0.01168), -92.0)}
REQUIRED = (["symmetric", "periodic", "integer plateau", "fractional plateau", "no plateau", "length below 4", "odd length", "even length", "scaling_factor", "amplitude_flatness", "power_flatness",
             "overlap_correlation", "recommended_overlap", "scalloping_loss", "bandwidth", "array of overlaps", "fractional overlap", "negative overlap", "defaults", "side lobes compared"]
            + [f"window:{f.name}" for f in list(FT) + list(NU)]
            + [f"window:{n}" for n in ("Rectangular", "Bartlett", "Hann", "Hamming", "Blackman", "Kaiser", "BartlettHann", "BlackmanHarris", "Bohman", "DolphChebyshev", "Exponential", "Gaussian", "Parzen", "Slepian")])


def i0(x):
    """the modified Bessel function of the first kind"""
    s, t, k = 1.0, 1.0, 1
    while t > 1e-18 * s:
        t *= (x / (2.0 * k)) ** 2
        s += t
        k += 1
    return s


def cosine_sum(c):
    c = [v / math.fsum(c) for v in c] if c[0] == 1.0 else c     # the coefficients with a0=1 are normalized to a peak of 1

    def function(n, m):
        z = 2.0 * math.pi * n / (m - 1)
        return math.fsum((-1) ** k * v * math.cos(k * z) for k, v in enumerate(c))
    return function


def chebyshev(order, x):
    if abs(x) <= 1.0:
        return math.cos(order * math.acos(x))
    return math.cosh(order * math.acosh(abs(x))) * ((-1) ** order if x < 0.0 else 1)


def dolph_chebyshev(attenuation):
    def window(m):
        if m <= 2:
            return numpy.ones(m)
        x0 = math.cosh(math.acosh(10.0 ** (attenuation / 20.0)) / (m - 1))
        w = [chebyshev(m - 1, x0 * math.cos(math.pi * k / m)) for k in range(m)]
        n = [math.fsum(v * math.cos(2.0 * math.pi * k * (i - (m - 1) / 2.0) / m) for k, v in enumerate(w)) for i in range(m)]
        return numpy.array(n) / n[m // 2]
    return window


def parzen(n, m):
    x = abs(n - (m - 1) / 2.0) / (m / 2.0)
    return 1.0 - 6.0 * x ** 2 * (1.0 - x) if x <= 0.5 else 2.0 * (1.0 - x) ** 3


def bohman(n, m):
    x = abs(2.0 * n / (m - 1) - 1.0)
    return (1.0 - x) * math.cos(math.pi * x) + math.sin(math.pi * x) / math.pi


def whole(function):
    """a window by the function of its samples"""
    def window(m):
        return numpy.array([function(n, m) for n in range(m)]) if m != 1 else numpy.ones(1)
    return window


def choose(ctx):
    """(name, class, keyword arguments, definition as a function of the length, tolerance)"""
    r = ctx.rng
    k = r.randrange(16)
    if k == 0:
        return "Rectangular", sumpf.RectangularWindow, {}, whole(lambda n, m: 1.0), 0.0
    if k == 1:
        return "Bartlett", sumpf.BartlettWindow, {}, whole(lambda n, m: 1.0 - abs(2.0 * n / (m - 1) - 1.0)), 1e-13
    if k == 2:
        return "Hann", sumpf.HannWindow, {}, whole(cosine_sum(COSINES["Hann"][0])), 1e-13
    if k == 3:
        return "Hamming", sumpf.HammingWindow, {}, whole(cosine_sum(COSINES["Hamming"][0])), 1e-13
    if k == 4:
        return "Blackman", sumpf.BlackmanWindow, {}, whole(cosine_sum(COSINES["Blackman"][0])), 1e-13
    if k == 5:
        beta = r.choice((0.0, 9.4248, r.uniform(0.1, 30.0)))
        return "Kaiser", sumpf.KaiserWindow, {"beta": beta}, whole(lambda n, m: i0(beta * math.sqrt(max(0.0, 1.0 - (2.0 * n / (m - 1) - 1.0) ** 2))) / i0(beta)), 1e-11
    if k == 6:
        return "BartlettHann", sumpf.BartlettHannWindow, {}, whole(lambda n, m: 0.62 - 0.48 * abs(n / (m - 1) - 0.5) + 0.38 * math.cos(2.0 * math.pi * (n / (m - 1) - 0.5))), 1e-13
    if k == 7:
        return "BlackmanHarris", sumpf.BlackmanHarrisWindow, {}, whole(cosine_sum(COSINES["BlackmanHarris"][0])), 1e-13
    if k == 8:
        return "Bohman", sumpf.BohmanWindow, {}, whole(bohman), 1e-13
    if k == 9:
        at = r.choice((150.0, 100.0, r.uniform(50.0, 160.0)))
        return "DolphChebyshev", sumpf.DolphChebyshevWindow, {"attenuation": at}, dolph_chebyshev(at), 1e-8
    if k == 10:
        d = r.choice((100.0, 0.0, r.uniform(0.5, 200.0)))
        return "Exponential", sumpf.ExponentialWindow, {"decay": d}, whole(lambda n, m: 10.0 ** (-d / 20.0 * abs(2.0 * n / (m - 1) - 1.0))), 1e-12
    if k == 11:
        s = r.choice((1.0, 0.3, r.uniform(0.05, 3.0)))
        return "Gaussian", sumpf.GaussianWindow, {"standard_deviation": s}, whole(lambda n, m: math.exp(-0.5 * ((2.0 * n / (m - 1) - 1.0) / s) ** 2)), 1e-12
    if k == 12:
        return "Parzen", sumpf.ParzenWindow, {}, whole(parzen), 1e-13
    if k == 13:
        return "Slepian", sumpf.SlepianWindow, {"beta": r.choice((9.4248, r.uniform(1.0, 20.0)))}, None, 1e-9
    if k == 14:
        f = r.choice(list(NU))
        return f.name, sumpf.NuttallWindow, {"function": f}, whole(cosine_sum(COSINES[f.name][0])), 1e-13
    f = r.choice(list(FT))
    return f.name, sumpf.FlatTopWindow, {"function": f}, whole(cosine_sum(COSINES[f.name][0])), 1e-13


def slepian(ctx, what, w, beta):
    """checks the eigenvector equation of the symmetric Slepian window"""
    m = len(w)
    ctx.check(gen.close_scaled(w, w[::-1], 1e-8), lambda: f"{what} is not symmetric")
    if m <= 2:
        ctx.check(gen.exact(w, numpy.ones(m)), lambda: f"{what}: {w}")
        return
    bandwidth = beta / math.pi / m
    if 2.0 * bandwidth >= 0.98:
        return
    i = numpy.arange(m)
    d = i[:, None] - i[None, :]
    a = 2.0 * bandwidth * numpy.sinc(2.0 * bandwidth * d)
    residual = a @ w
    concentration = (w @ residual) / (w @ w)
    # the largest eigenvalue is the one of the concentrated window without changes of the sign
    ctx.check(numpy.max(numpy.abs(residual - concentration * w)) <= 1e-6, lambda: f"{what} does not fulfill the eigenvector equation: {numpy.max(numpy.abs(residual - concentration * w))}")
    ctx.check(bool((w > -1e-9).all()), lambda: f"{what} is negative")
    if m % 2:
        ctx.check(abs(w[m // 2] - 1.0) <= 1e-9, lambda: f"{what}: the sample in the middle is {w[m // 2]}")
    else:
        ctx.check(0.3 < max(w) <= 1.0 + 1e-9, lambda: f"{what}: the maximum is {max(w)}")


def create(ctx, cls, arguments, rate, length, symmetric):
    """creates the window; returns None, if it is a Slepian window, which is too short for its parameter"""
    try:
        return cls(sampling_rate=rate, length=length, symmetric=symmetric, **arguments)
    except ValueError:
        plateau = arguments.get("plateau", 0)
        fade = 2 * ((length - index(plateau, length)) // 2) if plateau else length
        if cls is not sumpf.SlepianWindow or arguments["beta"] / math.pi < (fade + (0 if symmetric else 1)) / 2.0:
            raise
        ctx.event("too short for the parameter")
        return None


def samples(ctx):
    r = ctx.rng
    name, cls, arguments, definition, tolerance = choose(ctx)
    length = r.choice((0, 1, 2, 3, 4, 5, r.randint(6, 24), r.randint(6, 24), r.randint(25, 120), r.randint(25, 120)))
    length = gen.size(ctx, length, {"DolphChebyshev": 400, "Slepian": 600}.get(name))
    symmetric = r.random() < 0.5
    kind = r.choice(("none", "none", "integer", "fraction", "negative", "full"))
    if kind in ("fraction",):
        fraction = r.choice((0.0, 0.5, 1.0, r.random()))
        if abs(fraction * length % 1.0 - 0.5) < 1e-6:
            fraction = 0.25
        plateau, given = int(math.floor(fraction * length + 0.5)), fraction
        if abs(fraction * length % 1.0 - 0.5) < 1e-6:
            return
        ctx.event("fractional plateau")
    elif kind == "integer":
        plateau = given = r.randint(0, length)
        ctx.event("integer plateau")
    elif kind == "negative" and length > 1:
        plateau = r.randint(1, length - 1)
        given = plateau - length
    elif kind == "full":
        plateau, given = length, r.choice((length, 1.0))
    else:
        plateau = given = 0
        ctx.event("no plateau")
    rate = gen.rate(ctx)
    if plateau or r.random() < 0.5 or given:
        arguments = dict(arguments, plateau=given)
    what = f"{cls.__name__}({arguments}, length={length}, symmetric={symmetric})"
    ctx.note(what)
    x = create(ctx, cls, arguments, rate, length, symmetric)
    if x is None:
        return
    ctx.check(x.shape() == (1, length) and x.sampling_rate() == rate and x.offset() == 0, lambda: f"{what}: {gen.describe(x)}")
    ctx.check(x.symmetric() == symmetric and x.plateau() == plateau, lambda: f"{what}: symmetric() is {x.symmetric()}, plateau() is {x.plateau()}")
    w = x.channels()[0]
    if plateau:
        fade = (length - plateau) // 2
        total = 2 * fade + (0 if symmetric else 1)
        ones = w[fade:length - fade]
        ctx.check(len(ones) >= plateau and bool((ones == 1.0).all()), lambda: f"{what}: the plateau contains {ones}")
        parts = numpy.concatenate((w[0:fade], w[length - fade:]))
    else:
        total = length + (0 if symmetric else 1)
        parts = w
    if definition is None:
        beta = arguments["beta"]
        if total == len(parts):
            slepian(ctx, what, parts, beta)
        else:       # the cropped sample is the same as the first one
            slepian(ctx, what, numpy.append(parts, parts[0:1] if len(parts) else 1.0), beta)
    else:
        expected = definition(total)[0:len(parts)]
        ctx.check(gen.close_scaled(numpy.append(parts, 1.0), numpy.append(expected, 1.0), tolerance or 1e-15), lambda: f"{what}: {gen.diff(parts, expected)}")
    ctx.event(f"window:{name}")
    ctx.event("symmetric" if symmetric else "periodic")
    ctx.event("odd length" if length % 2 else "even length")
    if length < 4:
        ctx.event("length below 4")
    ctx.sign(name, symmetric, min(length, 5), length % 2, kind)


def index(i, length):
    if isinstance(i, float):
        i = int(math.floor(i * length + 0.5))
    return i + length if i < 0 else i


def overlapped(w, step):
    """the sum of all repetitions of the window, in the interval of the window"""
    n = len(w)
    result = [0.0] * n
    for i in range(n):
        j = i % step
        while j < n:
            result[i] += w[j]
            j += step
    return result


def metrics(ctx):
    r = ctx.rng
    name, cls, arguments, _, _ = choose(ctx)
    length = r.choice((4, 5, 6, 7, 8, r.randint(9, 40), r.randint(9, 40)))
    symmetric = r.random() < 0.4
    if r.random() < 0.3:
        arguments = dict(arguments, plateau=r.randint(0, length // 2))
    rate = gen.rate(ctx)
    x = create(ctx, cls, arguments, rate, length, symmetric)
    if x is None:
        return
    w = [float(v) for v in x.channels()[0]]
    what = f"{cls.__name__}({arguments}, length={length}, symmetric={symmetric})"
    ctx.note(what)

    def reference(metric, overlap):
        o = index(overlap, length)
        step = length - o
        if metric == "overlap_correlation":
            power = math.fsum(v * v for v in w)
            return math.fsum(w[i] * w[length - o + i] for i in range(o)) / power if power else 1.0
        if step == 0:
            return 0.0 if metric == "scaling_factor" else 1.0
        if metric == "scaling_factor":
            return length / math.fsum(overlapped(w, step))
        s = overlapped(w if metric == "amplitude_flatness" else [v * v for v in w], step)
        return min(s) / max(s)

    def draw():
        k = r.randrange(4)
        if k == 0:
            o = r.choice((0.0, 0.5, 1.0, 0.75, r.random()))
            if abs(o * length % 1.0 - 0.5) < 1e-6:
                o = 0.25 if abs(0.25 * length % 1.0 - 0.5) > 1e-6 else 0.0
            ctx.event("fractional overlap")
            return o
        if k == 1:
            ctx.event("negative overlap")
            return -r.randint(1, length)
        return r.randint(0, length)
    metric = r.choice(("scaling_factor", "amplitude_flatness", "power_flatness", "overlap_correlation"))
    gen.warm(ctx, lambda: getattr(x, metric)(0), lambda: getattr(x, metric)(length // 2), lambda: getattr(x, metric)(0.75), lambda: getattr(x, metric)([1, 2]), lambda: x.recommended_overlap())
    if r.random() < 0.35:
        overlaps = [draw() for _ in range(r.randint(1, 5))]
        if len({type(o) for o in overlaps}) > 1:
            overlaps = [o for o in overlaps if isinstance(o, int)]
        given = r.choice((list, tuple, numpy.array))(overlaps)
        with numpy.errstate(all="ignore"):
            got = getattr(x, metric)(given)
        ctx.check(isinstance(got, numpy.ndarray) and got.shape == (len(overlaps),), lambda: f"{what}.{metric}({given!r}) is {got!r}")
        ctx.event("array of overlaps")
    else:
        overlaps = [draw()]
        with numpy.errstate(all="ignore"):
            got = [getattr(x, metric)(overlaps[0])]
    for g, o in zip(got, overlaps):
        try:
            e = reference(metric, o)
        except ZeroDivisionError:
            continue
        ctx.check(abs(g - e) <= 1e-9 * max(1.0, abs(e)), lambda: f"{what}.{metric}({o}) is {g} instead of {e}")
        ctx.event(metric)
    ctx.sign(name, metric, symmetric, len(overlaps) > 1)


def scalars(ctx):
    r = ctx.rng
    name, cls, arguments, _, _ = choose(ctx)
    length = r.choice((6, 7, 8, r.randint(9, 40), r.randint(9, 40)))
    symmetric = r.random() < 0.4
    rate = gen.rate(ctx)
    x = create(ctx, cls, arguments, rate, length, symmetric)
    if x is None:
        return
    w = [float(v) for v in x.channels()[0]]
    what = f"{cls.__name__}({arguments}, sampling_rate={rate}, length={length}, symmetric={symmetric})"

    def transform(f):
        """the magnitude of the window's Fourier transform at the frequency (1 is the sampling rate)"""
        return math.hypot(math.fsum(v * math.cos(2.0 * math.pi * f * n) for n, v in enumerate(w)), math.fsum(v * math.sin(2.0 * math.pi * f * n) for n, v in enumerate(w)))
    k = r.choice(("scalloping_loss", "bandwidth", "recommended_overlap"))
    if k == "scalloping_loss":
        e = transform(0.5 / length) / transform(0.0)
        g = x.scalloping_loss()
        ctx.check(abs(g - e) <= 1e-9, lambda: f"{what}.scalloping_loss() is {g} instead of {e}")
    elif k == "bandwidth":
        over = r.choice((8, 8, 16, 5, 40))
        gen.warm(ctx, lambda: x.bandwidth(4), lambda: x.bandwidth(20), x.bandwidth, x.scalloping_loss)
        g = x.bandwidth() if over == 8 and r.random() < 0.5 else x.bandwidth(over)
        # the first bin below -3 dB in the oversampled spectrum
        threshold = transform(0.0) / math.sqrt(2.0)
        last = over * length // 2
        values = [transform(i / (over * length)) for i in range(last + 1)]
        crossing = next((i for i, v in enumerate(values) if v < threshold * (1.0 - 1e-9)), None)
        if crossing is None or any(abs(v - threshold) <= 1e-9 * threshold for v in values):
            return
        y1, y2 = values[crossing - 1], values[crossing]
        e = 2.0 * (crossing - 1 + (y1 - threshold) / (y1 - y2)) / (over * length) * rate
        ctx.check(abs(g - e) <= 1e-8 * e, lambda: f"{what}.bandwidth({over}) is {g} instead of {e}")
    else:
        best, values = None, []
        for o in range(length):
            s = overlapped(w, length - o)
            power = math.fsum(v * v for v in w)
            if max(s) == 0.0 or power == 0.0:
                return
            values.append(min(s) / max(s) - math.fsum(w[i] * w[length - o + i] for i in range(o)) / power)
        best = max(values)
        g = x.recommended_overlap()
        ctx.check(0 <= g < length and int(g) == g and values[int(g)] >= best - 1e-9, lambda: f"{what}.recommended_overlap() is {g}: the difference is {values[int(g)]} there, but {best} at {values.index(best)}")
    ctx.event(k)
    ctx.note(f"{what}.{k}()")
    ctx.sign(name, k, symmetric)


def lobes(ctx):
    """the highest side lobes of the sum of cosine windows have the published levels"""
    for name, (c, level) in COSINES.items():
        if level is None:
            continue
        n, over = 4096, 16
        if name in FT.__members__:
            x = sumpf.FlatTopWindow(function=FT[name], length=n, symmetric=False)
        elif name in NU.__members__:
            x = sumpf.NuttallWindow(function=NU[name], length=n, symmetric=False)
        else:
            x = getattr(sumpf, f"{name}Window")(length=n, symmetric=False)
        spectrum = numpy.abs(numpy.fft.rfft(x.channels()[0], n * over))
        # behind the main lobe, which ends at the frequency bin, that is the number of cosine terms
        highest = 20.0 * math.log10(max(spectrum[len(c) * over:]) / max(spectrum))
        ctx.check(abs(highest - level) <= 0.12, lambda: f"the highest side lobe of the {name} window is {highest:.2f} dB instead of {level} dB")
        ctx.event("side lobes compared")


def defaults(ctx):
    for cls, e in ((sumpf.KaiserWindow, lambda z: i0(9.4248 * math.sqrt(1.0 - z * z)) / i0(9.4248)), (sumpf.HannWindow, lambda z: 0.5 + 0.5 * math.cos(math.pi * z)), (sumpf.ExponentialWindow, lambda z: 10.0 ** (-5.0 * abs(z))),
                   (sumpf.GaussianWindow, lambda z: math.exp(-0.5 * z * z)), (sumpf.NuttallWindow, lambda z: cosine_sum(COSINES["NUTTALL4C"][0])((z + 1.0) / 2.0, 2)), (sumpf.FlatTopWindow, lambda z: cosine_sum(COSINES["DEFAULT"][0])((z + 1.0) / 2.0, 2))):
        x = cls()
        ctx.check(x.length() == 8192 and x.symmetric() is True and x.plateau() == 0 and x.sampling_rate() == 48000.0, lambda: f"{cls.__name__}(): {gen.describe(x)}")
        for n in (0, 1, 77, 4095, 4096, 6000, 8191):
            z = 2.0 * n / 8191 - 1.0
            ctx.check(abs(x.channels()[0, n] - e(z)) <= 1e-11, lambda: f"{cls.__name__}(): sample {n} is {x.channels()[0, n]} instead of {e(z)}")
        ctx.event("defaults")


SCENARIOS = [("samples", samples, 4000, 40000), ("metrics", metrics, 3000, 30000), ("scalars", scalars, 1200, 12000), ("large samples", gen.big(samples, 20011), 12, 300)]
PROBES = [("lobes", lobes), ("defaults", defaults)]
