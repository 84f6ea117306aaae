"""S10: standard filters have the textbook frequency responses."""
import math
from fractions import Fraction
import numpy
import sumpf
from . import gen

PROPERTY = "S10"
RULE = ("random filters (Butterworth, Bessel, Chebyshev 1 and 2; orders up to 24, cutoff frequencies over twelve decades, ripples of either sign, lowpass and highpass) are evaluated at random frequencies over the whole axis (scalars, arrays of any "
        "shape and order, zero, the cutoff frequency itself, negative ones) and in sampled form; each complex value is compared to an independent reference: reverse Bessel polynomials in exact rational arithmetic, the poles and zeros of the "
        "Butterworth and Chebyshev prototypes in 80 bit arithmetic, and, for the magnitudes, Chebyshev polynomials; the tolerance is derived from the condition of the second order sections.  Weighting filters are compared to their poles and zeros "
        "and to the tables of the standard, delay and derivative filters to their definitions.  Distinct by filter type, order, highpass, class of the cutoff frequency and notation of the frequencies")
ASSUMPTIONS = ["cutoff frequencies are positive; ripples are not zero, except for the Chebyshev type 1 filter, where zero yields a Butterworth filter", "even order Chebyshev type 1 filters have a gain of one at 0 Hz (documented behaviour: amplified by the ripple)",
               "the cutoff frequency of a Chebyshev type 2 filter is the edge of the stop band; the cutoff frequency of a Bessel filter normalizes its group delay", "even order Chebyshev type 2 highpass filters are not judged at exactly 0 Hz"]
REQUIRED = ["butterworth", "bessel", "chebyshev1", "chebyshev2", "lowpass", "highpass", "odd order", "even order", "scalar frequency", "array of frequencies", "two-dimensional frequencies", "zero frequency", "cutoff frequency",
            "negative frequency", "sampled", "negative ripple", "zero ripple", "getters", "delay", "negative delay", "derivative", "weighting A", "weighting B", "weighting C", "weighting D", "weighting U", "weighting table", "magnitude law"]
LD = numpy.longdouble
PI = LD("3.14159265358979323846264338327950288")
EPS = 2.3e-16


def bessel(order, x):
    """(H, condition) of the Bessel lowpass at the normalized frequency x: a_0 / sum(a_k * (jx)^k), in rational numbers"""
    x = Fraction(x)
    a = [math.factorial(2 * order - k) // (2 ** (order - k) * math.factorial(k) * math.factorial(order - k)) for k in range(order + 1)]
    re = im = total = Fraction(0)
    p = Fraction(1)
    for k, c in enumerate(a):
        t = c * p
        total += abs(t)
        if k % 4 == 0:
            re += t
        elif k % 4 == 1:
            im += t
        elif k % 4 == 2:
            re -= t
        else:
            im -= t
        p *= x
    d = re * re + im * im
    h = complex(float(a[0] * re / d), float(-a[0] * im / d))
    return h, float(total * total / d) ** 0.5


def poles_and_zeros(kind, order, ripple):
    """the normalized poles and zeros of the lowpass prototype (80 bit)"""
    k = numpy.arange(1, order + 1)
    theta = (2 * k - 1) * PI / (2 * order)
    if kind == "butterworth":
        return -numpy.sin(theta) + 1j * numpy.cos(theta), numpy.empty(0, dtype=numpy.clongdouble)
    r = LD(abs(ripple))
    q = numpy.expm1(r * numpy.log(LD(10)) / 10)       # 10**(r/10)-1
    if kind == "chebyshev1":
        mu = numpy.arcsinh(1 / numpy.sqrt(q)) / order
        return -numpy.sinh(mu) * numpy.sin(theta) + 1j * numpy.cosh(mu) * numpy.cos(theta), numpy.empty(0, dtype=numpy.clongdouble)
    mu = numpy.arcsinh(numpy.sqrt(q)) / order
    poles = 1 / (-numpy.sinh(mu) * numpy.sin(theta) + 1j * numpy.cosh(mu) * numpy.cos(theta))
    cos = numpy.cos(theta)
    keep = numpy.arange(1, order + 1) * 2 - 1 != order
    return poles, 1j / cos[keep]


def rational(poles, zeros, x, ripple):
    """(H, relative error bound of a double precision evaluation in second order sections)"""
    s = 1j * LD(x)
    h = numpy.clongdouble(1)
    condition = 0.0
    for group, invert in ((poles, True), (zeros, False)):
        for p in group:
            h = h * (-p) / (s - p) if invert else h * (s - p) / (-p)
            # |s-p| is small, when the frequency is near to the pole's; the conjugate pole is far from it
            condition += float((abs(s) + abs(p)) ** 2 / (abs(s - p) * abs(s - numpy.conj(p)) + LD(1e-4900)))
            condition += float(1.0 / min(abs(p), 1.0) ** 2) if invert else 1.0
    return complex(h), 100 * EPS * condition * (1.0 + (1.0 / abs(ripple) if ripple else 0.0))


def chebyshev_polynomial(n, x):
    if abs(x) <= 1.0:
        return math.cos(n * math.acos(x))
    return math.cosh(n * math.acosh(abs(x))) * (1 if x > 0 or n % 2 == 0 else -1)


def frequencies(ctx, fc, n):
    r = ctx.rng
    f = []
    for _ in range(n):
        k = r.randrange(8)
        if k == 0:
            f.append(fc)
            ctx.event("cutoff frequency")
        elif k == 1:
            f.append(0.0)
            ctx.event("zero frequency")
        elif k <= 3:
            f.append(fc * 10.0 ** r.uniform(-0.3, 0.3))
        elif k == 4:
            f.append(-fc * 10.0 ** r.uniform(-1.0, 1.0))
            ctx.event("negative frequency")
        elif k == 5:
            f.append(fc * 10.0 ** r.uniform(-4.0, 4.0))
        else:
            f.append(fc * 10.0 ** r.uniform(-1.5, 1.5))
    return f


def responses(ctx, filter_, f, what):
    """evaluates the filter at the frequencies f (list) in one of the possible notations"""
    r = ctx.rng
    k = r.randrange(4)
    if k == 0:
        values = []
        for x in f:
            v = filter_(x if r.random() < 0.7 else numpy.float64(x))
            ctx.check(isinstance(v, tuple) and len(v) == 1 and numpy.shape(v[0]) == (), lambda: f"{what}({x}) is {v!r}")
            values.append(complex(v[0]))
        ctx.event("scalar frequency")
    else:
        a = numpy.array(f)
        if k == 1:
            a = a.reshape(-1, 2) if len(f) % 2 == 0 else a.reshape(1, -1)
            ctx.event("two-dimensional frequencies")
        v = filter_(a if k != 3 else a[::-1])
        ctx.check(isinstance(v, tuple) and len(v) == 1 and v[0].shape == a.shape, lambda: f"{what}(array{a.shape}) is {v!r}")
        values = [complex(x) for x in (v[0] if k != 3 else v[0][::-1]).ravel()]
        ctx.event("array of frequencies")
    return values


def rolloff(ctx):
    r = ctx.rng
    kind = r.choice(("butterworth", "bessel", "chebyshev1", "chebyshev2"))
    order = r.choice((1, 2, 3, 4, 5, 6, r.randint(1, 8), r.randint(1, 12), r.randint(7, 24)))
    fc = r.choice((1000.0, 1000, 1.0, 20.0, 17.3, 22050.0, 10.0 ** r.uniform(-3, 6), 10.0 ** r.uniform(0, 4.5), 10.0 ** r.uniform(-6, 9)))
    highpass = r.random() < 0.5
    ripple = 0.0
    kwargs = {"cutoff_frequency": fc, "order": order, "highpass": highpass}
    if kind in ("chebyshev1", "chebyshev2"):
        ripple = r.choice((3.0, 1.0, 60.0, 0.1, 0.5, 40, 10.0 ** r.uniform(-2, 2), 10.0 ** r.uniform(-1, 1.5))) * r.choice((1, 1, 1, -1))
        if kind == "chebyshev1" and r.random() < 0.05:
            ripple = r.choice((0, 0.0))
            ctx.event("zero ripple")
        if ripple < 0:
            ctx.event("negative ripple")
        kwargs["ripple"] = ripple
    if r.random() < 0.1:    # the default values
        for k, v in (("cutoff_frequency", 1000.0), ("order", 1), ("highpass", False)) + ((("ripple", 3.0 if kind == "chebyshev1" else 60.0),) if "ripple" in kwargs else ()):
            if r.random() < 0.5:
                del kwargs[k]
                fc, order, highpass, ripple = v if k == "cutoff_frequency" else fc, v if k == "order" else order, v if k == "highpass" else highpass, v if k == "ripple" else ripple
    cls = {"butterworth": sumpf.ButterworthFilter, "bessel": sumpf.BesselFilter, "chebyshev1": sumpf.Chebyshev1Filter, "chebyshev2": sumpf.Chebyshev2Filter}[kind]
    names = ("cutoff_frequency", "ripple", "order", "highpass") if ripple or "ripple" in kwargs else ("cutoff_frequency", "order", "highpass")
    if len(kwargs) == len(names) and r.random() < 0.3:
        h = cls(*(kwargs[n] for n in names))
    else:
        h = cls(**kwargs)
    what = f"{cls.__name__}({kwargs})"
    ctx.note(what)
    ctx.check(h.cutoff_frequency() == fc and h.order() == order and h.is_highpass() == highpass and (not kind.startswith("cheb") or h.ripple() == ripple) and len(h) == 1 and len(h.labels()) == 1,
              lambda: f"{what}: getters return {h.cutoff_frequency()}, {h.order()}, {h.is_highpass()}")
    ctx.event("getters")
    if r.random() < 0.3:
        resolution, length = fc * 10.0 ** r.uniform(-2, 0.5), r.randint(1, 30)
        s = h.spectrum(resolution, length)
        ctx.check(s.shape() == (1, length) and s.resolution() == resolution and s.labels() == h.labels(), lambda: f"{what}.spectrum({resolution}, {length}) is {gen.describe(s)}")
        f = [float(i) * resolution for i in range(length)]
        values = [complex(x) for x in s.channels()[0]]
        ctx.event("sampled")
    else:
        f = frequencies(ctx, float(fc), r.choice((1, 2, 5, 12)))
        values = responses(ctx, h, f, what)
    if kind != "bessel":
        poles, zeros = poles_and_zeros("butterworth" if ripple == 0 else kind, order, ripple)
    for x, v in zip(f, values):
        if x == 0.0:
            if highpass and kind == "chebyshev2" and order % 2 == 0:
                continue
            e, tolerance = (0.0 if highpass else 1.0), (0.0 if highpass else 1e-14)
        else:
            y = Fraction(x) / Fraction(fc)
            if highpass:
                y = -1 / y
            if kind == "bessel":
                e, condition = bessel(order, y)
                tolerance = 50 * EPS * (order + 4) * condition
            else:
                e, tolerance = rational(poles, zeros, LD(y.numerator) / LD(y.denominator) if y.numerator.bit_length() < 16000 else LD(float(y)), ripple)
            if kind != "bessel" and not 1e-290 < abs(e) < 1e290 or kind == "bessel" and not 1e-200 < abs(e):
                continue    # the result or an intermediate result is beyond the range of numbers
            tolerance *= abs(e)
        # a relative error of the frequency of a few ulp is inherent in s = 2*pi*j*f
        ctx.check(abs(v - e) <= tolerance + 1e-13 * abs(e) * order, lambda: f"{what} at {x!r} Hz is {v!r} instead of {e!r} (tolerance {tolerance:.3g})")
        ctx.event(kind)
        # the magnitude law, which defines the filter types
        if x and kind != "bessel":
            y = abs(float(y))
            if kind == "butterworth" or ripple == 0:
                m = (1.0 + y ** (2 * order)) ** -0.5 if y ** order < 1e150 else 0.0
            elif kind == "chebyshev1":
                q = math.expm1(abs(ripple) * math.log(10.0) / 10.0)
                t = chebyshev_polynomial(order, y) if y < 1e6 else math.inf
                m = ((1.0 + q * (1 if order % 2 == 0 else 0)) / (1.0 + q * t * t)) ** 0.5
            else:
                q = math.expm1(abs(ripple) * math.log(10.0) / 10.0)
                t = chebyshev_polynomial(order, 1.0 / y) if y > 1e-6 else math.inf
                m = (1.0 / (1.0 + q / (t * t))) ** 0.5 if t else 0.0
            ctx.check(abs(abs(v) - m) <= 1e-7 + tolerance, lambda: f"{what} at {x!r} Hz has the magnitude {abs(v)!r} instead of {m!r}")
            ctx.event("magnitude law")
    ctx.event("highpass" if highpass else "lowpass")
    ctx.event("even order" if order % 2 == 0 else "odd order")
    ctx.sign(kind, order, highpass, round(math.log10(fc) / 3), ripple < 0, abs(ripple) > 3)


def simple(ctx):
    """delays and derivatives"""
    r = ctx.rng
    if r.random() < 0.7:
        t = r.choice((1.0, 0.001, 3, r.uniform(-2.0, 2.0), 10.0 ** r.uniform(-6, 2), -10.0 ** r.uniform(-6, 2), 0.0))
        h = sumpf.DelayFilter(t) if r.random() < 0.5 else sumpf.DelayFilter(delay=t)
        what = f"DelayFilter({t})"
        f = frequencies(ctx, 1.0 / abs(t) if t else 1000.0, r.choice((1, 2, 9)))

        def expected(x):
            phase = Fraction(x) * Fraction(t) % 1        # complete periods cancel exactly
            return complex(numpy.exp(-2j * PI * LD(float(phase)))), 40 * EPS * (1.0 + abs(x * t))
        ctx.event("delay")
        if t < 0:
            ctx.event("negative delay")
    else:
        h, what = sumpf.DerivativeFilter(), "DerivativeFilter()"
        f = frequencies(ctx, 10.0 ** r.uniform(-3, 5), r.choice((1, 2, 9)))

        def expected(x):
            return complex(0.0, 2.0 * math.pi * x), 1e-15 * 8 * abs(x)
        ctx.event("derivative")
    ctx.note(what)
    for x, v in zip(f, responses(ctx, h, f, what)):
        e, tolerance = expected(x)
        ctx.check(abs(v - e) <= tolerance, lambda: f"{what} at {x!r} Hz is {v!r} instead of {e!r}")
    ctx.sign(what.split("(")[0], len(f))


def c_poles():
    """the poles of the C weighting (20.598997 Hz and 12194.217 Hz), with the formula of IEC 61672-1, annex E"""
    fl2, fh2, fr2 = LD(10) ** 3, LD(10) ** LD("7.8"), LD(10) ** 6
    d = numpy.sqrt(LD(0.5))
    b = (fr2 + fl2 * fh2 / fr2 - d * (fl2 + fh2)) / (1 - d)
    root = numpy.sqrt(b * b - 4 * fl2 * fh2)
    return numpy.sqrt((-b - root) / 2), numpy.sqrt((-b + root) / 2)


def weighting_reference(kind, f):
    """the response without normalization at the frequencies f (80 bit)"""
    f = numpy.asarray(f, dtype=LD)
    jf = 1j * f
    f1, f4 = c_poles()
    if kind in "ABC":
        h = jf ** 2 / ((jf + f1) ** 2 * (jf + f4) ** 2)
        if kind == "A":
            fa = LD(10) ** LD("2.45")
            h = h * jf ** 2 / ((jf + fa * (3 - numpy.sqrt(LD(5))) / 2) * (jf + fa * (3 + numpy.sqrt(LD(5))) / 2))
        elif kind == "B":
            h = h * jf / (jf + LD("158.5"))
        return h
    if kind == "D":
        zeros = 1037918.48 - f ** 2 + 1j * f * numpy.sqrt(LD("1080768.16"))
        poles = 9837328.0 - f ** 2 + 1j * f * numpy.sqrt(LD("11723776"))
        return jf / ((jf + numpy.sqrt(LD("79919.29"))) * (jf + 1160)) * zeros / poles
    p = (-12200, -12200, -7850 - 8800j, -7850 + 8800j, -2900 - 12150j, -2900 + 12150j)
    h = numpy.ones(f.shape, dtype=numpy.clongdouble)
    for x in p:
        h = h / (jf - numpy.clongdouble(x))
    return h


WEIGHTINGS = {"A": sumpf.AWeighting, "B": sumpf.BWeighting, "C": sumpf.CWeighting, "D": sumpf.DWeighting, "U": sumpf.UWeighting}


def weighting(ctx):
    r = ctx.rng
    k = r.choice("ABCDU")
    h = WEIGHTINGS[k]()
    what = f"{k}Weighting()"
    if r.random() < 0.3:
        resolution, length = r.choice((1000.0, 10.0 ** r.uniform(-1, 3.5))), r.randint(1, 30)
        s = h.spectrum(resolution, length)
        f, values = [float(i) * resolution for i in range(length)], [complex(x) for x in s.channels()[0]]
        ctx.event("sampled")
    else:
        f = frequencies(ctx, r.choice((1000.0, 1000.0, 20.6, 12194.2, 107.7, 737.9, 282.7, 158.5)), r.choice((1, 2, 5, 20)))
        values = responses(ctx, h, f, what)
    expected = weighting_reference(k, f) / weighting_reference(k, [1000.0])[0]
    for x, v, e in zip(f, values, expected):
        e = complex(e)
        ctx.check(abs(v - e) <= 1e-10 * abs(e), lambda: f"{what} at {x!r} Hz is {v!r} instead of {e!r}")
    ctx.event(f"weighting {k}")
    ctx.note(f"{what} at {len(f)} frequencies")
    ctx.sign("weighting", k)


# IEC 61672-1, table 3, from 10 Hz to 20 kHz in steps of a third of an octave
TABLE_A = (-70.4, -63.4, -56.7, -50.5, -44.7, -39.4, -34.6, -30.2, -26.2, -22.5, -19.1, -16.1, -13.4, -10.9, -8.6, -6.6, -4.8, -3.2, -1.9, -0.8, 0.0, 0.6, 1.0, 1.2, 1.3, 1.2, 1.0, 0.5, -0.1, -1.1, -2.5, -4.3, -6.6, -9.3)
TABLE_C = (-14.3, -11.2, -8.5, -6.2, -4.4, -3.0, -2.0, -1.3, -0.8, -0.5, -0.3, -0.2, -0.1, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -0.1, -0.2, -0.3, -0.5, -0.8, -1.3, -2.0, -3.0, -4.4, -6.2, -8.5, -11.2)


def tables(ctx):
    f = 10.0 ** (numpy.arange(10, 44) / 10.0)
    for k, table in (("A", TABLE_A), ("C", TABLE_C)):
        level = 20.0 * numpy.log10(abs(WEIGHTINGS[k]()(f)[0]))
        ctx.check(bool((abs(level - table) < 0.0501).all()), lambda: f"{k}Weighting differs from the table of IEC 61672-1: {numpy.round(level - table, 3)}")
        ctx.event("weighting table", len(f))
    ctx.check(abs(c_poles()[0] - 20.598997) < 1e-6 and abs(c_poles()[1] - 12194.217) < 1e-3, "the reference is wrong")
    for k, cls in WEIGHTINGS.items():
        ctx.check(abs(abs(cls()(1000.0)[0]) - 1.0) < 1e-12, lambda: f"{k}Weighting is not 0 dB at 1 kHz")


SCENARIOS = [("rolloff", rolloff, 12000, 120000), ("simple", simple, 3000, 20000), ("weighting", weighting, 1500, 10000)]
PROBES = [("tables", tables)]
