"""S12: bands filters interpolate and extrapolate as specified."""
import math
import types
import collections
import numpy
import sumpf
from . import gen

PROPERTY = "S12"
RULE = ("random bands filters (one to four channels, no to nine supporting points in any order, integer, real, negative, zero and complex values, integer or float frequencies, neighbouring or far apart supporting points, interpolations and "
        "extrapolations as flags, integers or sequences of any length) are evaluated at supporting points, just beside them, between and outside of them, as scalars and as unsorted arrays with repetitions; each value is compared to a "
        "reference that interpolates with the definition in 80 bit arithmetic, one frequency at a time; to_db and from_db are compared per band and in both orders.  Distinct by pair of interpolation and extrapolation, number of supporting points, "
        "kind of the values and position of the frequency")
ASSUMPTIONS = ["a logarithmic interpolation with values or frequencies, that are zero or negative, is judged only at the supporting points", "in the middle between two supporting points, either of them is the nearest one",
               "sequences of interpolations that are shorter than the bands are continued with their last entry, labels with their first", "decibels are those of positive values"]
REQUIRED = ["supporting point", "beside a supporting point", "between supporting points", "below all supporting points", "above all supporting points", "empty bands", "single supporting point", "two supporting points", "complex values",
            "negative values", "integer values", "scalar frequency", "unsorted frequencies", "two-dimensional frequencies", "channels with different settings", "settings as integers", "short sequence of settings", "single mapping",
            "to_db", "from_db", "round trip", "converted with other parameters", "settings kept by the conversion", "sampled", "negative frequency", "unsorted bands"] + [f"interpolation {i.name}" for i in sumpf.Bands.interpolations] + [f"extrapolation {i.name}" for i in sumpf.Bands.interpolations]
I = sumpf.Bands.interpolations
LD = numpy.longdouble
CLD = numpy.clongdouble


def value(band, interpolation, extrapolation, f):
    """(value, absolute tolerance) from the definitions of the interpolations; None, if the value is not defined; the value may be a list of equally good values"""
    if not band:
        return 0.0, 0.0
    xs = sorted(band)
    if f in band:
        return band[f], 0.0
    inside = xs[0] <= f <= xs[-1]
    mode = interpolation if inside else extrapolation
    if mode == I.ZERO:
        return 0.0, 0.0
    if mode == I.ONE:
        return 1.0, 0.0
    if mode in (I.STAIRS_LIN, I.STAIRS_LOG):
        if not inside:
            return band[xs[0] if f < xs[0] else xs[-1]], 0.0
        if mode == I.STAIRS_LIN:
            d = [abs(LD(f) - LD(x)) for x in xs]
            room = 4e-16 * abs(f)
        else:
            if xs[0] <= 0.0:
                return None
            d = [abs(numpy.log(LD(f)) - numpy.log(LD(x))) for x in xs]
            room = 1e-15 * (1.0 + abs(math.log(f)))
        return [band[x] for x, e in zip(xs, d) if e <= min(d) + room], 0.0
    log_x = mode in (I.LOGARITHMIC, I.LOG_X)
    log_y = mode in (I.LOGARITHMIC, I.LOG_Y)
    if log_x and (xs[0] <= 0.0 or f <= 0.0):
        return None
    if log_y and any(y == 0 or (not isinstance(y, complex) and y < 0) for y in band.values()):
        return None
    if len(xs) == 1:
        return band[xs[0]], 1e-13 * abs(band[xs[0]])
    i = max(0, min(sum(1 for x in xs if x < f) - 1, len(xs) - 2))
    a, b = xs[i], xs[i + 1]
    ya, yb = band[a], band[b]
    gx = (lambda x: numpy.log(LD(x))) if log_x else LD
    complex_values = any(isinstance(y, complex) for y in band.values())
    gy = (lambda y: numpy.log(CLD(y) if complex_values else LD(y))) if log_y else (CLD if complex_values else LD)
    w = (gx(f) - gx(a)) / (gx(b) - gx(a))
    za, zb = gy(ya), gy(yb)
    z = za * (1 - w) + zb * w
    # the rounding errors: x-values enter with their relative error, the straight line is computed with its value at zero
    slope = abs(zb - za) / abs(gx(b) - gx(a))
    e = 1e-14 * (abs(za) + abs(zb) + abs(z) + slope * (abs(gx(f)) + abs(gx(a)) + abs(gx(b)))) + 1e-15 * slope / abs(gx(b) - gx(a)) * max(abs(gx(a)), abs(gx(b))) * abs(gx(f) - gx(a))
    e += 2e-15 * (abs(za) + abs(zb)) / abs(gx(b) - gx(a)) * (abs(gx(f) - gx(a)) + abs(gx(a)))
    if slope and abs(zb - za) / slope < 1e-9 * max(abs(gx(a)), abs(gx(b))):
        e += 1e-2 * max(abs(za), abs(zb))
    if log_y:
        if abs(z) > 600:
            return None
        v = numpy.exp(z)
        return complex(v), float(abs(v) * (numpy.expm1(min(e * 4, 1.0)) + 1e-14))
    return complex(z), float(e * 4)


def bands_of(ctx):
    """one random mapping of frequencies to values and the kind of the values"""
    r = ctx.rng
    n = r.choice((0, 1, 1, 2, 2, 3, 3, 4, 5, 9))
    kind = r.choice(("positive", "positive", "positive", "integer", "negative", "complex", "zero", "wide"))
    style = r.choice(("near", "decades", "integer", "octaves", "thirds"))
    if style == "integer":
        xs = r.sample(range(1, 60), n)
    elif style == "octaves":
        xs = [1000.0 * 2.0 ** (i - 4) for i in range(n)]
    elif style == "thirds":
        xs = [float(x) for x in (63, 80, 100, 125, 160, 200, 250, 315, 400)[0:n]]
    elif style == "near":
        xs = list({100.0 + r.uniform(0.0, 5.0) for _ in range(n)})
    else:
        xs = list({10.0 ** r.uniform(-2.0, 5.0) for _ in range(n)})
    if n > 1 and r.random() < 0.08:
        xs[0] = type(xs[0])(0)
    r.shuffle(xs)
    if xs != sorted(xs):
        ctx.event("unsorted bands")
    band = {}
    for x in xs:
        y = r.uniform(0.2, 5.0)
        if kind == "integer":
            y = r.randint(1, 9)
        elif kind == "negative":
            y = -y if r.random() < 0.6 else y
        elif kind == "complex":
            y = y * complex(math.cos(a := r.uniform(-3, 3)), math.sin(a))
        elif kind == "zero":
            y = r.choice((0.0, y, y))
        elif kind == "wide":
            y = 10.0 ** r.uniform(-12, 12)
        band[x] = y
    if kind != "positive" and n:
        ctx.event({"integer": "integer values", "negative": "negative values", "complex": "complex values"}.get(kind, "other values"))
    ctx.event({0: "empty bands", 1: "single supporting point", 2: "two supporting points"}.get(n, "many supporting points"))
    return band, kind


def settings(ctx, n):
    """(argument, the flags of the channels)"""
    r = ctx.rng
    form = r.choice(("flag", "flag", "int", "full", "full", "short", "long"))
    if form == "flag":
        f = r.choice(list(I))
        return f, [f] * n
    if form == "int":
        f = r.choice(list(I))
        ctx.event("settings as integers")
        return int(f), [f] * n
    m = {"full": n, "short": r.randint(1, n), "long": n + r.randint(1, 2)}[form]
    flags = [r.choice(list(I)) for _ in range(m)]
    if m < n:
        ctx.event("short sequence of settings")
    per_channel = [flags[min(i, m - 1)] for i in range(n)]
    if len(set(per_channel)) > 1:
        ctx.event("channels with different settings")
    argument = [int(f) for f in flags] if r.random() < 0.2 else flags
    return (tuple(argument) if r.random() < 0.5 else list(argument)), per_channel


def create(ctx, bands):
    r = ctx.rng
    n = len(bands)
    i, interpolations = settings(ctx, n)
    e, extrapolations = settings(ctx, n)
    k = r.randrange(6)
    if k == 0:
        labels, expected = (), ("Bands",) * n
    elif k == 1:
        labels = gen.labels(ctx, r.randint(1, n))
        expected = labels + (labels[0],) * (n - len(labels))
    else:
        labels = expected = gen.labels(ctx, n)
    kwargs = {"bands": tuple(bands) if r.random() < 0.5 else list(bands), "interpolations": i, "extrapolations": e, "labels": labels}
    if n == 1 and r.random() < 0.6:
        b = bands[0]
        kwargs["bands"] = r.choice((b, types.MappingProxyType(b), collections.OrderedDict(b)))
        ctx.event("single mapping")
    if r.random() < 0.15:
        del kwargs["interpolations"]
        interpolations = [I.LOGARITHMIC] * n
    if r.random() < 0.15:
        del kwargs["extrapolations"]
        extrapolations = [I.STAIRS_LIN] * n
    filter_ = sumpf.Bands(**kwargs)
    what = f"Bands({bands}, {[x.name for x in interpolations]}, {[x.name for x in extrapolations]})"
    ctx.note(what)
    ctx.check(len(filter_) == n and tuple(filter_.labels()) == tuple(expected), lambda: f"{what}, labels {labels} has {len(filter_)} channels with the labels {filter_.labels()}")
    return filter_, interpolations, extrapolations, what


def frequencies(ctx, bands, n):
    r = ctx.rng
    xs = sorted({x for b in bands for x in b}) or [10.0]
    f = []
    for _ in range(n):
        k = r.randrange(9)
        i = r.randrange(len(xs))
        if k <= 1:
            f.append(float(xs[i]))
        elif k == 2:
            f.append(float(numpy.nextafter(xs[i], r.choice((-1e9, 1e9)))))
        elif k <= 5 and len(xs) > 1:
            i = r.randrange(len(xs) - 1)
            w = r.choice((0.5, r.random(), r.random(), 1e-6, 1 - 1e-6))
            f.append(xs[i] + w * (xs[i + 1] - xs[i]) if r.random() < 0.5 or xs[i] <= 0 else xs[i] * (xs[i + 1] / xs[i]) ** w)
        elif k == 6:
            f.append(xs[0] * r.choice((0.0, 0.5, 0.9, 1e-3, 1.0 - 1e-9)))
            if r.random() < 0.1:
                f.append(-xs[-1] * r.random())
                ctx.event("negative frequency")
        else:
            f.append(xs[-1] * r.choice((2.0, 1.1, 1000.0, 1.0 + 1e-9)))
    if f and r.random() < 0.3:
        f.append(r.choice(f))
    r.shuffle(f)
    return f


def judge(ctx, what, bands, interpolations, extrapolations, f, responses):
    for c, (band, i, e) in enumerate(zip(bands, interpolations, extrapolations)):
        for x, got in zip(f, responses[c]):
            expected = value(band, i, e, x)
            if expected is None:
                ctx.event("undefined value")
                continue
            v, tolerance = expected
            ok = any(got == y for y in v) if isinstance(v, list) else abs(got - v) <= tolerance
            ctx.check(ok, lambda: f"{what}: channel {c} is {got!r} at {x!r} Hz instead of {v!r} (tolerance {tolerance:.3g})")
            if not band:
                position = "nothing"
            else:
                low, high = min(band), max(band)
                if x in band:
                    position = "supporting point"
                elif x < low:
                    position = "below all supporting points"
                elif x > high:
                    position = "above all supporting points"
                else:
                    position = "between supporting points"
                ctx.event(position)
                if position != "supporting point":
                    ctx.event(f"{'interpolation' if low < x < high else 'extrapolation'} {(i if low < x < high else e).name}")
                    if any(abs(x - s) <= 1e-12 * s for s in band):
                        ctx.event("beside a supporting point")
            ctx.sign(i.name, e.name, min(len(band), 4), position)


def evaluate(ctx, filter_, f, n):
    """the responses of the channels, with a random notation of the frequencies"""
    r = ctx.rng
    k = r.randrange(5)
    if k == 0:
        rows = [filter_(r.choice((float, numpy.float64))(x)) for x in f]
        ctx.check(all(isinstance(v, tuple) and len(v) == n and all(numpy.shape(y) == () for y in v) for v in rows), "a scalar frequency does not yield a tuple of scalars")
        ctx.event("scalar frequency")
        return [[v[c] for v in rows] for c in range(n)]
    if k == 1 and all(float(x).is_integer() for x in f):
        ctx.event("integer frequencies")
        rows = [filter_(int(x)) for x in f]
        return [[v[c] for v in rows] for c in range(n)]
    a = numpy.array(f, dtype=float)
    if k == 2:
        a = a.reshape(2, -1) if len(f) % 2 == 0 else a.reshape(-1, 1)
        ctx.event("two-dimensional frequencies")
    elif f != sorted(f):
        ctx.event("unsorted frequencies")
    before = a.copy()
    v = filter_(a)
    ctx.check(isinstance(v, tuple) and len(v) == n and all(y.shape == a.shape for y in v) and gen.exact(a, before), lambda: f"the evaluation at an array with shape {a.shape} is {v!r}")
    return [list(y.ravel()) for y in v]


def interpolate(ctx):
    r = ctx.rng
    n = r.choice((1, 1, 2, 3, 4))
    parts = [bands_of(ctx) for _ in range(n)]
    if n > 1 and r.random() < 0.3:      # the same supporting points in all channels
        parts = [(dict(zip(parts[0][0], list(p[0].values()) or [1.0])), p[1]) for p in parts]
        parts = [p if len(p[0]) == len(parts[0][0]) else parts[0] for p in parts]
    bands = [p[0] for p in parts]
    copies = [dict(b) for b in bands]
    filter_, interpolations, extrapolations, what = create(ctx, bands)
    for _ in range(2):
        f = frequencies(ctx, bands, r.choice((1, 3, 8)))
        judge(ctx, what, copies, interpolations, extrapolations, f, evaluate(ctx, filter_, f, n))
    if r.random() < 0.3:
        xs = sorted({x for b in bands for x in b if x}) or [1.0]
        resolution, length = r.choice((xs[0], xs[-1] / 2, xs[-1] / 7.3)), r.randint(1, 16)
        s = filter_.spectrum(resolution, length)
        ctx.check(s.shape() == (n, length) and s.resolution() == resolution and tuple(s.labels()) == tuple(filter_.labels()), lambda: f"{what}.spectrum({resolution}, {length}) is {gen.describe(s)}")
        f = [float(v) for v in numpy.linspace(0.0, (length - 1) * resolution, length)]
        # whether a bin hits a supporting point exactly, depends on the rounding errors of its frequency
        clear = [k for k, v in enumerate(f) if not v or not any(abs(v - x) <= 1e-12 * v for x in xs)]
        judge(ctx, what + ".spectrum()", copies, interpolations, extrapolations, [f[k] for k in clear], [[c[k] for k in clear] for c in s.channels()])
        ctx.event("sampled")
    ctx.check(bands == copies, lambda: f"{what}: the bands were modified")


def decibels(ctx):
    r = ctx.rng
    n = r.choice((1, 1, 2, 3))
    bands = []
    for _ in range(n):
        b, _ = bands_of(ctx)
        bands.append({x: abs(y) or 1.5 for x, y in b.items()})
    copies = [dict(b) for b in bands]
    filter_, interpolations, extrapolations, what = create(ctx, bands)
    reference, factor = r.choice(((1.0, 20.0), (1.0, 20.0), (2e-5, 20.0), (1e-12, 10.0), (3, 10), (r.uniform(0.1, 9.0), r.uniform(1.0, 30.0))))
    plain = reference == 1.0 and factor == 20.0
    args = {} if plain and r.random() < 0.7 else {"reference": reference, "factor": factor}
    if args and r.random() < 0.3:
        args = {"reference": reference}
        factor = 20.0
    elif args and r.random() < 0.3:
        args = {"factor": factor}
        reference = 1.0

    def same_settings(converted, function):
        ctx.check(type(converted) is sumpf.Bands and tuple(converted.labels()) == tuple(filter_.labels()) and len(converted) == n, lambda: f"{what}.{function}({args}): {type(converted).__name__} with the labels {converted.labels()}")
        for a, b in zip(converted.transfer_functions(), filter_.transfer_functions()):
            ctx.check(a.interpolation == b.interpolation and a.extrapolation == b.extrapolation and list(a.xs) == list(b.xs), lambda: f"{what}.{function}({args}) changed the settings: {a!r}")
        ctx.event("settings kept by the conversion")

    def supporting(f, expected, function):
        for c, b in enumerate(expected):
            for x, y in b.items():
                got = f(float(x))[c]
                ctx.check(abs(got - y) <= 1e-12 * abs(y) + 1e-11 * (0.0 if function.endswith("from_db") else factor), lambda: f"{what}.{function}({args}): channel {c} is {got!r} at {x} Hz instead of {y!r}")
    db = filter_.to_db(**args)
    same_settings(db, "to_db")
    supporting(db, [{x: factor * math.log10(y / reference) for x, y in b.items()} for b in copies], "to_db")
    ctx.event("to_db")
    # the same filter with other parameters
    if r.random() < 0.5:
        other, factor2 = r.choice((1.0, 0.1, reference)), r.choice((10.0, 20.0, 7.0))
        supporting(filter_.to_db(other, factor2), [{x: factor2 * math.log10(y / other) for x, y in b.items()} for b in copies], f"to_db({other}, {factor2}) after to_db")
        supporting(filter_.to_db(**args), [{x: factor * math.log10(y / reference) for x, y in b.items()} for b in copies], "to_db again")
        ctx.event("converted with other parameters")
    # the converted filter interpolates the converted values
    levels = [{x: db(float(x))[c] for x in b} for c, b in enumerate(copies)]
    levels = [{x: float(y.real) for x, y in b.items()} for b in levels]
    f = frequencies(ctx, bands, 5)
    judge(ctx, f"{what}.to_db({args})", levels, interpolations, extrapolations, f, evaluate(ctx, db, f, n))
    back = db.from_db(**args)
    same_settings(back, "to_db().from_db")
    supporting(back, copies, "to_db().from_db")
    ctx.event("round trip")
    # the other order, with moderate levels
    small = [{x: r.uniform(-60.0, 60.0) for x in b} for b in copies]
    filter_, interpolations, extrapolations, what = create(ctx, small)
    linear = filter_.from_db(**args)
    same_settings(linear, "from_db")
    supporting(linear, [{x: reference * 10.0 ** (y / factor) for x, y in b.items()} for b in small], "from_db")
    ctx.event("from_db")
    if r.random() < 0.5:
        other, factor2 = r.choice((1.0, 0.1, reference)), r.choice((10.0, 20.0, 7.0))
        supporting(filter_.from_db(other, factor2), [{x: other * 10.0 ** (y / factor2) for x, y in b.items()} for b in small], f"from_db({other}, {factor2}) after from_db")
    again = linear.to_db(**args)
    same_settings(again, "from_db().to_db")
    supporting(again, small, "from_db().to_db")
    ctx.check([dict(b) for b in bands] == copies, lambda: f"{what}: the bands were modified")
    ctx.sign("decibels", n, plain)


SCENARIOS = [("interpolate", interpolate, 6000, 60000), ("decibels", decibels, 2000, 16000)]
