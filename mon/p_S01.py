"""S01: arithmetic combines data sets at equal positions."""
import copy
import numpy
import sumpf
from . import gen

PROPERTY = "S01"
RULE = ("random pairs of data sets (signal/signal, spectrum/spectrum, spectrogram/spectrogram, spectrogram/signal, "
        "spectrogram/spectrum, data/number, data/array) with all relations of shapes, offsets and channel counts; the observed "
        "result is compared sample by sample to a position-indexed reference model.  A case is distinct by operation, operand "
        "types, relation of the channel counts, of the time ranges and of the frequency ranges; all cases are non-trivial "
        "(non-zero, pairwise different samples)")
ASSUMPTIONS = ["the operands of different sampling rates are combined by sample index (the library does not compare the rates)"]
REQUIRED = ["op:signal", "op:spectrum", "op:spectrogram", "op:spectrogram-signal", "op:signal-spectrogram",
            "op:spectrogram-spectrum", "op:spectrum-spectrogram", "op:number", "op:array", "op:numpy-left"]

OPS = {"+": (numpy.add, lambda b: b, "Sum"),
       "-": (numpy.subtract, lambda b: -b, "Difference"),
       "*": (numpy.multiply, lambda b: b, "Product"),
       "/": (numpy.true_divide, lambda b: 1.0 / b, "Quotient"),
       "**": (numpy.power, lambda b: b, "Power"),
       "%": (numpy.mod, lambda b: b, "Modulo")}


def apply(op, a, b, ctx=None):
    if ctx is not None and ctx.rng.random() < 0.4:      # the same objects have been combined with others before
        for x, y in ctx.rng.sample(((a, a), (a, 2.0), (3.0, b), (b, b), (b, a), (a, copy.copy(b))), 2):
            try:
                with numpy.errstate(all="ignore"):
                    apply(op, x, y)
            except Exception:   # pylint: disable=broad-except; only the operation, that follows, is judged
                pass
        ctx.event("operands used before")
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return a / b
    if op == "**":
        return a ** b
    return a % b


def as_cube(x, like=None):
    """(values[channel, frequency, time], time offset); frequency-less or time-less data gets a dimension of None"""
    if isinstance(x, sumpf.Signal):
        return numpy.array(x.channels())[:, None, :], x.offset()
    if isinstance(x, sumpf.Spectrum):
        return numpy.array(x.channels())[:, :, None], None
    return numpy.array(x.channels()), x.offset()


def reference(op, a, b):
    """position-wise model: every covered position is computed on its own"""
    func, pivot, _ = OPS[op]
    av, ao = as_cube(a)
    bv, bo = as_cube(b)
    # data sets without a time or a frequency axis hold their value for all positions on that axis
    if ao is None:
        av, ao = numpy.repeat(av, bv.shape[2] if bo is not None else 1, axis=2), bo if bo is not None else 0
    if bo is None:
        bv, bo = numpy.repeat(bv, av.shape[2], axis=2) if not isinstance(a, sumpf.Spectrum) else bv, ao
    if isinstance(a, sumpf.Signal) and isinstance(b, sumpf.Spectrogram):
        av = numpy.repeat(av, bv.shape[1], axis=1)
    if isinstance(b, sumpf.Signal) and isinstance(a, sumpf.Spectrogram):
        bv = numpy.repeat(bv, av.shape[1], axis=1)
    start = min(ao, bo)
    stop = max(ao + av.shape[2], bo + bv.shape[2])
    n = max(len(av), len(bv))
    f = max(av.shape[1], bv.shape[1])
    dtype = numpy.result_type(av.dtype, bv.dtype)

    def place(v, o):
        values = numpy.zeros((n, f, stop - start), dtype=dtype)
        present = numpy.zeros((n, f, stop - start), dtype=bool)
        for c in range(n):
            src = 0 if len(v) == 1 else c
            if src < len(v):
                values[c, 0:v.shape[1], o - start:o - start + v.shape[2]] = v[src]
                present[c, 0:v.shape[1], o - start:o - start + v.shape[2]] = True
        return values, present
    aa, ap = place(av, ao)
    bb, bp = place(bv, bo)
    result = numpy.zeros((n, f, stop - start), dtype=dtype)
    both, only_a, only_b = ap & bp, ap & ~bp, bp & ~ap
    with numpy.errstate(all="ignore"):
        result[both] = func(aa[both], bb[both])
        result[only_a] = aa[only_a]
        result[only_b] = pivot(bb[only_b])
    return result, start, n


def operand_values(ctx, op, data, real):
    """chooses sample values, for which the operation is well conditioned"""
    return data


def relation(a, b):
    return "=" if a == b else ("<" if a < b else ">")


def overlap(a0, a1, b0, b1):
    if (a0, a1) == (b0, b1):
        return "same"
    if a1 < b0 or b1 < a0:
        return "gap" + relation(a0, b0)
    if a1 == b0 or b1 == a0:
        return "touch" + relation(a0, b0)
    if a0 <= b0 and b1 <= a1:
        return "contains"
    if b0 <= a0 and a1 <= b1:
        return "inside"
    return "partial" + relation(a0, b0)


def second_geometry(ctx, off, length, reach=14):
    """offset and length of the second operand: often equal or adjacent in some respect"""
    r = ctx.rng
    if getattr(ctx, "big", 0):
        reach = max(reach, length + 10)
        if r.random() < 0.5:
            return off + r.randint(-reach, reach), r.choice((length, r.randint(1, reach)))
    mode = r.randrange(9)
    if mode <= 1:
        return off, length
    if mode == 2:
        return off, r.randint(1, reach)
    if mode == 3 and not getattr(ctx, "big", 0):
        return r.randint(-reach, reach), length
    if mode == 4:       # touching or with a gap, behind
        return off + length + r.choice((0, 0, 1, 3)), r.randint(1, reach)
    if mode == 5:       # touching or with a gap, before
        l = r.randint(1, reach)
        return off - l - r.choice((0, 0, 1, 3)), l
    if mode == 6 and length > 2:    # contained
        l = r.randint(1, length - 1)
        return off + r.randint(0, length - l), l
    if mode == 7:       # containing
        a, b = r.randint(0, 4), r.randint(0, 4)
        return off - a, length + a + b
    return (off if getattr(ctx, "big", 0) else 0) + r.randint(-reach, reach), r.randint(1, reach)


def second_channels(ctx, c):
    return ctx.rng.choice((c, c, 1, c + 1, c + 2, max(1, c - 1), ctx.rng.randint(1, 5)))


def compare(ctx, op, a, b, result, expected, start, label_count, what):
    got, o = as_cube(result)
    desc = lambda m: f"{what}: {gen.describe(a)} {op} {gen.describe(b)}: {m}"
    if isinstance(result, sumpf.Spectrum):
        o = start
    ctx.check(got.shape == expected.shape, lambda: desc(f"shape {got.shape} instead of {expected.shape}"))
    ctx.check(o == start, lambda: desc(f"offset {o} instead of {start}"))
    ctx.check(gen.close(got, expected, rtol=1e-10), lambda: desc(gen.diff(got, expected)))
    ctx.check(tuple(result.labels()) == (OPS[op][2],) * label_count, lambda: desc(f"labels {result.labels()}"))


def signals(ctx):
    r = ctx.rng
    op = r.choice(list(OPS))
    kind = "positive" if op in ("**", "%") else r.choice(("nice", "nice", "positive"))
    c, l, o = gen.count(ctx, 1, 1, 2, 3, 4), gen.extent(ctx, 14), gen.offset(ctx)
    a = gen.signal(ctx, c, l, off=o, kind=kind)
    o2, l2 = second_geometry(ctx, o, l)
    b = gen.signal(ctx, second_channels(ctx, c), l2, off=o2, kind=kind,
                   sampling_rate=r.choice((a.sampling_rate(), gen.rate(ctx))))
    expected, start, n = reference(op, a, b)
    result = apply(op, a, b, ctx)
    ctx.event("op:signal")
    ctx.event(f"signal {op}")
    ctx.check(type(result) is sumpf.Signal, f"{type(result)}")
    compare(ctx, op, a, b, result, expected, start, n, "signals")
    ctx.check(result.sampling_rate() == a.sampling_rate(), f"sampling rate {result.sampling_rate()} instead of {a.sampling_rate()}")
    ctx.sign(op, relation(len(a), len(b)), len(a) == 1, len(b) == 1, overlap(o, o + l, o2, o2 + l2))
    if ctx.index < 2:
        ctx.note(f"{gen.describe(a)} {op} {gen.describe(b)} -> {gen.describe(result)}")


def spectrums(ctx):
    r = ctx.rng
    op = r.choice(("+", "-", "*", "/", "**"))
    kind = "nice"
    c, l = gen.count(ctx, 1, 1, 2, 3, 4), gen.extent(ctx, 14)
    a = gen.spectrum(ctx, c, l, kind=kind)
    b = gen.spectrum(ctx, second_channels(ctx, c), l, kind=kind)
    if r.random() < 0.3:
        a = abs(a)
    if r.random() < 0.3:
        b = abs(b)
    expected, start, n = reference(op, a, b)
    result = apply(op, a, b, ctx)
    ctx.event("op:spectrum")
    ctx.event(f"spectrum {op}")
    ctx.check(type(result) is sumpf.Spectrum, f"{type(result)}")
    compare(ctx, op, a, b, result, expected, start, n, "spectrums")
    ctx.check(result.resolution() == a.resolution(), "resolution")
    ctx.sign(op, relation(len(a), len(b)), len(a) == 1, len(b) == 1, a.channels().dtype.kind, b.channels().dtype.kind)


def spectrums_mismatch(ctx):
    """spectrums with different lengths cannot be combined: an error, not a wrong result"""
    r = ctx.rng
    a = gen.spectrum(ctx, r.choice((1, 2, 3)), r.randint(2, 8))
    b = gen.spectrum(ctx, r.choice((1, 2, 3)), a.length() + r.randint(1, 4))
    if r.random() < 0.5:
        a, b = b, a
    op = r.choice(("+", "-", "*", "/", "**"))
    ctx.event("op:spectrum-mismatch")
    try:
        result = apply(op, a, b, ctx)
    except ValueError:
        ctx.sign("error", len(a), len(b), relation(a.length(), b.length()))
        return
    ctx.fail(f"{gen.describe(a)} {op} {gen.describe(b)} gave {gen.describe(result)} instead of an error")


def spectrograms(ctx):
    r = ctx.rng
    op = r.choice(("+", "-", "*", "/", "**"))
    c, f, l, o = gen.count(ctx, 1, 1, 2, 3), gen.extent(ctx, 5, divide=40), gen.extent(ctx, 7, divide=20), gen.offset(ctx, 6)
    a = gen.spectrogram(ctx, c, f, l, off=o)
    o2, l2 = second_geometry(ctx, o, l, 8)
    f2 = r.choice((f, f, f + 1, f + 2, max(1, f - 1)))
    b = gen.spectrogram(ctx, second_channels(ctx, c), f2, l2, off=o2)
    if r.random() < 0.2:
        a = abs(a)
    if r.random() < 0.2:
        b = abs(b)
    expected, start, n = reference(op, a, b)
    result = apply(op, a, b, ctx)
    ctx.event("op:spectrogram")
    ctx.event(f"spectrogram {op}")
    ctx.check(type(result) is sumpf.Spectrogram, f"{type(result)}")
    compare(ctx, op, a, b, result, expected, start, n, "spectrograms")
    ctx.check(result.resolution() == a.resolution(), "resolution")
    ctx.check(result.sampling_rate() == a.sampling_rate(), "sampling rate")
    ctx.sign(op, relation(len(a), len(b)), len(a) == 1, len(b) == 1, relation(f, f2), overlap(o, o + l, o2, o2 + l2))


def mixed_signal(ctx):
    r = ctx.rng
    op = r.choice(("+", "-", "*", "/", "**"))
    c, f, l, o = gen.count(ctx, 1, 1, 2, 3), gen.extent(ctx, 5, divide=40), gen.extent(ctx, 7, divide=20), gen.offset(ctx, 6)
    g = gen.spectrogram(ctx, c, f, l, off=o)
    if r.random() < 0.2:
        g = abs(g)
    o2, l2 = second_geometry(ctx, o, l, 8)
    s = gen.signal(ctx, second_channels(ctx, c), l2, off=o2, kind="positive")
    a, b = (g, s) if r.random() < 0.5 else (s, g)
    expected, start, n = reference(op, a, b)
    result = apply(op, a, b, ctx)
    name = "spectrogram-signal" if a is g else "signal-spectrogram"
    ctx.event(f"op:{name}")
    ctx.check(type(result) is sumpf.Spectrogram, f"{type(result)}")
    compare(ctx, op, a, b, result, expected, start, n, name)
    ctx.check(result.resolution() == g.resolution(), "resolution")
    ctx.check(result.sampling_rate() == g.sampling_rate(), "sampling rate")
    ctx.sign(op, name, relation(len(g), len(s)), len(g) == 1, len(s) == 1, overlap(o, o + l, o2, o2 + l2))


def mixed_spectrum(ctx):
    r = ctx.rng
    op = r.choice(("+", "-", "*", "/", "**"))
    c, f, l = gen.count(ctx, 1, 1, 2, 3), gen.extent(ctx, 6, divide=20), gen.extent(ctx, 7, divide=40)
    g = gen.spectrogram(ctx, c, f, l)
    if r.random() < 0.2:
        g = abs(g)
    s = gen.spectrum(ctx, second_channels(ctx, c), f if r.random() < 0.9 else f + r.randint(1, 3))
    a, b = (g, s) if r.random() < 0.5 else (s, g)
    name = "spectrogram-spectrum" if a is g else "spectrum-spectrogram"
    ctx.event(f"op:{name}")
    if s.length() != f:
        try:
            result = apply(op, a, b, ctx)
        except ValueError:
            ctx.event("frequency mismatch rejected")
            return
        ctx.fail(f"{gen.describe(a)} {op} {gen.describe(b)} gave {gen.describe(result)} instead of an error")
    expected, start, n = reference(op, a, b)
    result = apply(op, a, b, ctx)
    ctx.check(type(result) is sumpf.Spectrogram, f"{type(result)}")
    compare(ctx, op, a, b, result, expected, start, n, name)
    ctx.check(result.resolution() == g.resolution(), "resolution")
    ctx.check(result.sampling_rate() == g.sampling_rate(), "sampling rate")
    ctx.sign(op, name, relation(len(g), len(s)), len(g) == 1, len(s) == 1, f, l)


def scalars(ctx):
    """numbers and arrays, on both sides of the operator"""
    r = ctx.rng
    what = r.choice(("signal", "spectrum", "spectrogram"))
    op = r.choice(list(OPS) if what == "signal" else ("+", "-", "*", "/", "**"))
    kind = "positive" if op in ("**", "%") else "nice"
    x = {"signal": gen.signal, "spectrum": gen.spectrum, "spectrogram": gen.spectrogram}[what](ctx, kind=kind)
    real = what == "signal"
    form = r.choice(("int", "float", "complex", "npfloat", "npint", "vector", "channels", "full", "list", "tuple", "column", "np0d"))
    if real and form == "complex":
        form = "float"
    make = (lambda shape: gen.values(ctx, shape, "positive")) if real else (lambda shape: gen.cvalues(ctx, shape))
    if form == "int":
        y = r.choice((1, 2, 3, 5))
    elif form == "float":
        y = r.uniform(0.3, 3.0)
    elif form == "complex":
        y = complex(r.uniform(0.3, 2.0), r.uniform(-1.0, 1.0))
    elif form == "npfloat":
        y = numpy.float64(r.uniform(0.3, 3.0))
    elif form == "npint":
        y = numpy.int64(r.choice((1, 2, 3)))
    elif form == "np0d":
        y = numpy.array(r.uniform(0.3, 3.0))
    elif form == "vector":
        y = make((x.length(),))
    elif form == "column":
        y = make((len(x), 1) if what != "spectrogram" else (len(x), 1, 1))
    elif form == "channels":
        y = make(x.shape()[1:])
    elif form == "full":
        y = make(x.shape())
    elif form == "list":
        y = make((x.length(),)).tolist()
    else:
        y = tuple(make((x.length(),)).tolist())
    left = r.random() < 0.5
    arr = numpy.array(x.channels())
    func = OPS[op][0]
    if left:
        expected = func(numpy.asarray(y), arr)
        result = apply(op, y, x, ctx)
    else:
        expected = func(arr, numpy.asarray(y))
        result = apply(op, x, y, ctx)
    ctx.event("op:number" if form in ("int", "float", "complex") else "op:array")
    if left and form in ("npfloat", "npint", "np0d", "vector", "column", "channels", "full"):
        ctx.event("op:numpy-left")
    desc = lambda m: f"{gen.describe(x)} {op} {form} (on the {'left' if left else 'right'}): {m}"
    ctx.check(type(result).__name__ == what.capitalize(), lambda: desc(f"type {type(result)}"))
    ctx.check(gen.close(result.channels(), expected, rtol=1e-10), lambda: desc(gen.diff(result.channels(), expected)))
    ctx.check(result.labels() == x.labels(), lambda: desc(f"labels {result.labels()}"))
    if what != "spectrum":
        ctx.check(result.offset() == x.offset(), lambda: desc("offset"))
        ctx.check(result.sampling_rate() == x.sampling_rate(), lambda: desc("sampling rate"))
    if what != "signal":
        ctx.check(result.resolution() == x.resolution(), lambda: desc("resolution"))
    ctx.sign(what, op, form, left)


def unsupported(ctx):
    """combinations without a meaning end with a TypeError instead of a result or an endless computation"""
    r = ctx.rng
    x = r.choice((gen.signal, gen.spectrum))(ctx)
    if isinstance(x, sumpf.Signal):
        y = gen.spectrum(ctx, len(x), x.length())
    else:
        y = gen.signal(ctx, len(x), x.length())
    op = r.choice(("+", "-", "*", "/", "**"))
    ctx.event("op:unsupported")
    try:
        result = apply(op, x, y, ctx)
    except TypeError:
        ctx.sign(op, type(x).__name__, type(y).__name__)
        return
    ctx.fail(f"{gen.describe(x)} {op} {gen.describe(y)} gave {type(result)} instead of a TypeError")


class Foreign:
    """a class of another package, that knows how to be combined with data sets"""
    def handle(self, other):
        return ("handled", other)
    __radd__ = __rsub__ = __rmul__ = __rtruediv__ = __rpow__ = handle


def foreign(ctx):
    """operands of other types: a TypeError, or their own reflected operator"""
    r = ctx.rng
    x = r.choice((gen.signal, gen.spectrum, gen.spectrogram))(ctx)
    op = r.choice(("+", "-", "*", "/", "**"))
    y = r.choice(("x", None, {}, object(), Foreign()))
    ctx.event("op:foreign")
    ctx.sign(op, type(x).__name__, type(y).__name__)
    if isinstance(y, Foreign):
        result = apply(op, x, y, ctx)
        ctx.check(isinstance(result, tuple) and result[0] == "handled" and result[1] is x, lambda: f"{gen.describe(x)} {op} an object with a reflected operator: {result!r}")
        return
    before = x.channels().copy()
    for a, b in ((x, y), (y, x)):
        try:
            result = apply(op, a, b, ctx)
        except TypeError:
            continue
        ctx.fail(f"{type(a).__name__} {op} {type(b).__name__} gave {result!r} instead of a TypeError")
    ctx.check(numpy.array_equal(before, x.channels(), equal_nan=True), lambda: f"{gen.describe(x)} {op} {y!r} changed the samples")


def chains(ctx):
    """sums over several data sets: accumulated position-wise model"""
    r = ctx.rng
    total, model = None, {}
    channels = r.choice((1, 2))
    ops = []
    for i in range(r.randint(2, 5)):
        s = gen.signal(ctx, channels, max_length=8, off=r.randint(-10, 10), sampling_rate=1000.0)
        if total is None:
            total, sign = s, 1.0
        else:
            op = r.choice("+-")
            sign = 1.0 if op == "+" else -1.0
            total = total + s if op == "+" else total - s
        ops.append((s.offset(), s.length(), sign))
        for c in range(channels):
            for j in range(s.length()):
                model[c, s.offset() + j] = model.get((c, s.offset() + j), 0.0) + sign * float(s.channels()[c, j])
    start, stop = min(p for _, p in model), max(p for _, p in model)
    ctx.event("op:chain")
    ctx.check(total.offset() == start and total.length() == stop - start + 1,
              lambda: f"chain of {ops}: range {total.offset()}+{total.length()} instead of {start}..{stop}")
    for c in range(channels):
        for p in range(start, stop + 1):
            got = float(total.channels()[c, p - start])
            ctx.check(abs(got - model.get((c, p), 0.0)) < 1e-10, lambda: f"chain {ops}: channel {c} position {p}: {got} instead of {model.get((c, p), 0.0)}")
    ctx.sign(len(ops), channels, sorted(o for o, _, _ in ops)[0] < 0)


SCENARIOS = [("signals", signals, 4000, 60000),
             ("spectrums", spectrums, 1500, 15000),
             ("spectrums_mismatch", spectrums_mismatch, 100, 1000),
             ("spectrograms", spectrograms, 4000, 60000),
             ("mixed_signal", mixed_signal, 4000, 60000),
             ("mixed_spectrum", mixed_spectrum, 1500, 20000),
             ("scalars", scalars, 2500, 30000),
             ("unsupported", unsupported, 60, 500), ("foreign", foreign, 300, 3000),
             ("chains", chains, 600, 6000),
             ("large signals", gen.big(signals, 140000, far=True), 20, 200),
             ("large spectrums", gen.big(spectrums, 140000, far=True), 12, 120),
             ("large spectrograms", gen.big(spectrograms, 5000, far=True), 20, 200),
             ("large mixed_signal", gen.big(mixed_signal, 5000, far=True), 20, 200),
             ("large mixed_spectrum", gen.big(mixed_spectrum, 5000, far=True), 12, 120),
             ("large scalars", gen.big(scalars, 20000, far=True), 12, 120)]
