"""S09: filter algebra is pointwise algebra of transfer functions."""
import operator
import numpy
import sumpf
from . import filters as ft
from . import gen

PROPERTY = "S09"
RULE = ("random transfer function trees (all primitive terms, with and without lowpass-to-highpass transform at every level) are "
        "combined by chains of filter operators with filters and numbers on both sides; the responses of the results, evaluated at "
        "scalars, arrays and by sampling a spectrum, are compared to an independent evaluation of the trees with rounding error "
        "bounds.  Distinct by the tree's structure and the evaluation form; points where the operation is ill conditioned "
        "(e.g. division by almost zero) are skipped")
ASSUMPTIONS = ["in nested expressions, combinations of bands filters are judged at their supporting points only; pairs of bands filters are judged everywhere, but when both have the same structure, the interpolation of the combined values is accepted as well as the combination of the interpolated values",
               "at exactly 0 Hz, a transformed term has the documented value 0; expressions, that divide by such a term, are not judged there"]
REQUIRED = ["op:+", "op:-", "op:*", "op:/", "op:~", "op:abs", "op:neg", "op:number right", "op:number left", "eval:scalar", "eval:array",
            "eval:spectrum", "response value compared", "channels broadcast", "zero hertz", "op:term", "op:factory", "bands with the same structure", "bands with different structures", "empty polynomial", "zero operand"]


def operate(ctx, gen_, channels, filt):
    """applies one random operator to a filter and to its list of trees"""
    r = ctx.rng
    n = len(channels)
    op = r.choice(("+", "-", "*", "/", "~", "abs", "neg", "n+", "n-", "n*", "n/", "+n", "-n", "*n", "/n"))
    if op in ("+", "-", "*", "/"):
        m = r.choice((n, n, 1)) if n > 1 else r.choice((1, 1, 2, 3))
        other, of = make(ctx, gen_, m, r.randint(0, 2))
        if r.random() < 0.5:
            channels, other, filt, of, n, m = other, channels, of, filt, m, n
        ctx.event(f"op:{op}")
        if n != m:
            ctx.event("channels broadcast")
        total = max(n, m)
        a = channels * total if n == 1 else channels
        b = other * total if m == 1 else other
        if op == "+":
            return [("sum", (x, y), False) for x, y in zip(a, b)], filt + of, op
        if op == "-":
            return [("diff", x, y, False) for x, y in zip(a, b)], filt - of, op
        if op == "*":
            return [("prod", (x, y), False) for x, y in zip(a, b)], filt * of, op
        return [("quot", x, y, False) for x, y in zip(a, b)], filt / of, op
    if op == "~":
        ctx.event("op:~")
        return [("quot", ("const", 1.0), x, False) for x in channels], ~filt, op
    if op == "abs":
        ctx.event("op:abs")
        return [("abs", x, False) for x in channels], abs(filt), op
    if op == "neg":
        ctx.event("op:neg")
        return [("neg", x, False) for x in channels], -filt, op
    c = r.choice((gen_.value(), 1, 0, 2, -1, 1.0, 0.0, -1.0, complex(gen_.value(), gen_.value()), numpy.float64(gen_.value())))
    if op in ("/n", ) and c == 0:
        c = 2.0
    k = ("const", complex(c) if isinstance(c, complex) else float(c))
    ctx.event("op:number left" if op[0] == "n" else "op:number right")
    if op == "n+":
        return [("sum", (k, x), False) for x in channels], c + filt, op
    if op == "n-":
        return [("diff", k, x, False) for x in channels], c - filt, op
    if op == "n*":
        return [("prod", (k, x), False) for x in channels], c * filt, op
    if op == "n/":
        return [("quot", k, x, False) for x in channels], c / filt, op
    if op == "+n":
        return [("sum", (x, k), False) for x in channels], filt + c, op
    if op == "-n":
        return [("diff", x, k, False) for x in channels], filt - c, op
    if op == "*n":
        return [("prod", (x, k), False) for x in channels], filt * c, op
    return [("quot", x, k, False) for x in channels], filt / c, op


def make(ctx, gen_, n, depth):
    trees = [gen_.tree(depth) for _ in range(n)]
    tfs = [ft.build(t) for t in trees]
    return trees, sumpf.Filter(transfer_functions=ctx.rng.choice((tuple, list))(tfs), labels=tuple(f"f{i}" for i in range(n)))


def judge(ctx, gen_, trees, filt, what):
    r = ctx.rng
    fs = gen_.frequencies(r.randint(2, 6), trees)
    ctx.check(len(filt) == len(trees), lambda: f"{what}: {len(filt)} channels instead of {len(trees)}")
    refs = [ft.evaluate(t, fs) for t in trees]
    # an array (also unsorted, integer typed or two-dimensional) ...
    result = filt(fs)
    ctx.event("eval:array")
    for t, got, (v, e) in zip(trees, result, refs):
        ft.compare(ctx, got, v, e, f"{what} [{ft.shape(t)}] at {fs.tolist()}")
    if r.random() < 0.2:
        square = numpy.resize(fs, (2, 3))
        result = filt(square)
        for t, got in zip(trees, result):
            ft.compare(ctx, got, *ft.evaluate(t, square), f"{what} [{ft.shape(t)}] at a two-dimensional array")
    # ... scalars ...
    ctx.event("eval:scalar")
    for i in range(min(2, len(fs))):
        f = float(fs[i]) if r.random() < 0.7 else fs[i]
        for t, got, (v, e) in zip(trees, filt(f), refs):
            ctx.check(numpy.ndim(got) == 0, lambda: f"{what}: the response at a scalar frequency is {got!r}")
            ft.compare(ctx, got, v[i], e[i], f"{what} [{ft.shape(t)}] at scalar {f}")
    # ... and sampled
    if not any(ft.has_bands(t) for t in trees):
        length = r.randint(1, 7)
        resolution = gen_.f0 * 10.0 ** r.uniform(-1, 0.2)
        s = filt.spectrum(resolution=resolution, length=length)
        ctx.event("eval:spectrum")
        ctx.check(s.shape() == (len(trees), length) and s.resolution() == resolution and s.labels() == filt.labels(),
                  lambda: f"{what}: spectrum {gen.describe(s)}")
        f = numpy.arange(1, length) * resolution
        for t, got in zip(trees, s.channels()):
            ft.compare(ctx, got[1:], *ft.evaluate(t, f), f"{what} [{ft.shape(t)}] sampled")
        called = filt(s.frequency_samples())
        for t, a, b in zip(trees, called, s.channels()):
            zero(ctx, t, a[0], f"{what} [{ft.shape(t)}] called")
            zero(ctx, t, b[0], f"{what} [{ft.shape(t)}] sampled")
        for t, a in zip(trees, filt(0.0)):
            zero(ctx, t, a, f"{what} [{ft.shape(t)}] called with scalar 0")


def zero(ctx, t, got, what):
    """the response at 0 Hz"""
    ctx.event("zero hertz")
    tr = ft.has_transform(t)
    if not tr:
        v, e = ft.evaluate(t, numpy.zeros(1))
        v, e = v[0], e[0]
        if numpy.isfinite(v) and e <= 1e-6 * abs(v):
            ctx.check(abs(got - v) <= 64 * e + 1e-13 * abs(v), lambda: f"{what}: {got!r} at 0 Hz instead of {v!r}")


def zero_hertz(ctx):
    """transformed terms are 0 at 0 Hz, other terms have their value for s = 0"""
    r = ctx.rng
    gen_ = ft.Trees(ctx)

    def lowpass():
        return ("quot", ("const", gen_.value()), ("poly", tuple(abs(gen_.value()) / (6.3 * gen_.f0) ** (2 - i) for i in range(3)), False), False)

    def highpass():
        t = lowpass()
        w = 6.3 * gen_.f0
        return (t[0], t[1], ("poly", tuple(abs(gen_.value()) * w ** (2 - i) for i in range(3)), False), True)

    def combine(depth):
        if depth == 0:
            return r.choice((lowpass, highpass))()
        k = r.choice(("abs", "neg", "sum", "diff", "prod", "leaf"))
        if k == "leaf":
            return combine(0)
        if k in ("abs", "neg"):
            return (k, combine(depth - 1), False)
        if k in ("sum", "prod"):
            return (k, tuple(combine(depth - 1) for _ in range(r.choice((2, 3)))), False)
        return (k, combine(depth - 1), combine(depth - 1), False)
    trees = [combine(r.randint(0, 3)) for _ in range(r.choice((1, 2, 3)))]
    filt = sumpf.Filter([ft.build(t) for t in trees])
    resolution = gen_.f0 / 3.0
    observed = [filt(0.0), [c[1] for c in filt(numpy.array([resolution, 0.0, 2.0 * resolution]))], filt.spectrum(resolution, 4).channels()[:, 0],
                [c[0] for c in filt(numpy.array([0.0]))]]
    for i, t in enumerate(trees):
        v, e = ft.evaluate(t, numpy.zeros(1), zero_rule=True)
        for o in observed:
            ctx.event("zero hertz")
            key = "zero-hertz-mixed-sum" if o[i] == 0 and ft.has_transform(t) else None
            ctx.check(abs(o[i] - v[0]) <= 64 * e[0] + 1e-13 * abs(v[0]), lambda: f"{ft.shape(t)} (channel {i}): {o[i]!r} at 0 Hz instead of {v[0]!r}", key=key)
        ctx.sign(ft.shape(t))


def algebra(ctx):
    r = ctx.rng
    gen_ = ft.Trees(ctx, with_bands=r.random() < 0.3)
    trees, filt = make(ctx, gen_, r.choice((1, 1, 2, 3)), r.randint(0, 2))
    ops = []
    for _ in range(r.randint(1, 4)):
        try:
            trees, filt, op = operate(ctx, gen_, trees, filt)
        except ZeroDivisionError:       # only, when there is a constant zero in a denominator
            ctx.event("division by a constant zero")
            return
        ops.append(op)
        if max(ft.size(t) for t in trees) > 60:
            break
    if r.random() < 0.15:       # once again, with the transformed terms
        k = r.choice(("abs", "neg"))
        trees = [(k, x, True) for x in trees]
        factory = sumpf.Filter.Absolute if k == "abs" else sumpf.Filter.Negative
        filt = sumpf.Filter([factory(value=tf, transform=True) for tf in filt.transfer_functions()])
        ops.append("T")
    judge(ctx, gen_, trees, filt, "filter after " + " ".join(ops))
    for t in trees:
        ctx.sign(ft.shape(t))
    if ctx.index < 2:
        ctx.note(f"{ops}: {[ft.shape(t) for t in trees]}")


def terms(ctx):
    """the factories and the operators of the terms themselves"""
    r = ctx.rng
    gen_ = ft.Trees(ctx, with_bands=r.random() < 0.3)
    t = gen_.tree(r.randint(0, 3))
    term = ft.build(t)
    ops = []
    for _ in range(r.randint(0, 4)):
        ctx.event("op:term")
        op = r.choice(("~", "abs", "neg", "+", "-", "*", "/", "inv"))
        ops.append(op)
        if op == "~":
            t, term = ("quot", ("const", 1.0), t, False), ~term
        elif op == "abs":
            t, term = ("abs", t, False), abs(term)
        elif op == "neg":
            t, term = ("neg", t, False), -term
        elif op == "inv":
            t, term = ("prod", (t, ("const", 1.0)), True), term.invert_transform()
        else:
            u = gen_.tree(r.randint(0, 2))
            v = ft.build(u)
            if r.random() < 0.5:
                t, u, term, v = u, t, v, term
            if op == "+":
                t, term = ("sum", (t, u), False), term + v
            elif op == "-":
                t, term = ("diff", t, u, False), term - v
            elif op == "*":
                t, term = ("prod", (t, u), False), term * v
            else:
                t, term = ("quot", t, u, False), term / v
        if ft.size(t) > 60:
            break
    judge(ctx, gen_, [t], sumpf.Filter(transfer_functions=(term,)), "term after " + " ".join(ops))
    ctx.sign(ft.shape(t))


def divides_by_zero(t):
    """True, if a denominator of the tree is zero everywhere"""
    def test(n):
        if n[0] != "quot":
            return False
        v, e = ft.evaluate(n[2], numpy.array([1.234, 56.7, 890.1]))
        return bool((~(abs(v) > e)).any())
    return ft.any_node(t, test)


def cancel(ctx):
    """expressions, whose parts cancel or simplify: constants, equal operands, zeros"""
    r = ctx.rng
    gen_ = ft.Trees(ctx)
    x = gen_.tree(r.randint(0, 2))
    y = gen_.tree(r.randint(0, 1))
    tr = r.random() < 0.5
    one, minus, zero_ = ("const", 1.0), ("const", -1.0), ("const", 0.0)
    base = r.choice((("diff", one, x, False), ("sum", (one, x), False), ("diff", x, x, False), ("quot", x, x, False),
                     ("sum", (zero_, x), tr), ("diff", zero_, x, tr), ("diff", x, zero_, tr), ("prod", (x, zero_), tr),
                     ("prod", (one, x), tr), ("prod", (minus, x), tr), ("sum", (x, y, zero_), tr), ("prod", (x, y, one), tr),
                     ("sum", (("sum", (x, y), tr), x), not tr), ("prod", (("prod", (x, y, x), tr), ("prod", (y, x, y), not tr)), tr),
                     ("sum", (("sum", (x, y, x), tr), ("sum", (y, x, y), not tr)), tr),
                     ("diff", ("diff", one, x, tr), one, not tr), ("neg", ("neg", x, tr), not tr), ("abs", ("abs", x, tr), not tr),
                     ("quot", one, ("quot", one, x, tr), not tr), ("quot", zero_, x, tr), ("quot", x, minus, tr)))
    outer = r.choice(("", "neg", "abs", "inv", "-1", "~", "sum3"))
    term, t = ft.build(base), base
    if outer == "neg":
        t, term = ("neg", t, True), sumpf.Filter.Negative(term, True)
    elif outer == "abs":
        t, term = ("abs", t, True), sumpf.Filter.Absolute(term, transform=True)
    elif outer == "inv":
        t, term = ("prod", (t, one), True), term.invert_transform()
    elif outer == "-1":
        t, term = ("prod", (("sum", (t, minus), False), one), True), (term + sumpf.Filter.Constant(-1.0)).invert_transform()
    elif outer == "~":
        t = ("quot", one, t, False)
        if divides_by_zero(t):
            return
        term = ~term
    elif outer == "sum3":
        t, term = ("sum", (t, y, one), True), sumpf.Filter.Sum((term, ft.build(y), sumpf.Filter.Constant(1.0)), True)
    ctx.event("op:term")
    judge(ctx, gen_, [t], sumpf.Filter(transfer_functions=(term,)), f"simplified expression {ft.shape(base)} {outer}")
    ctx.sign(ft.shape(t))


def labels(ctx):
    """labels and errors of the operators"""
    r = ctx.rng
    n, m = r.randint(1, 4), r.randint(1, 4)
    a = sumpf.Filter([sumpf.Filter.Constant(float(i + 2)) for i in range(n)], labels=[f"a{i}" for i in range(n)])
    b = sumpf.Filter([sumpf.Filter.Constant(float(i + 7)) for i in range(m)], labels=[f"b{i}" for i in range(m)])
    op, func, label = r.choice((("+", lambda x, y: x + y, "Sum"), ("-", lambda x, y: x - y, "Difference"),
                                ("*", lambda x, y: x * y, "Product"), ("/", lambda x, y: x / y, "Quotient")))
    ctx.event("labels")
    try:
        c = func(a, b)
    except ValueError:
        ctx.check(n != m and n != 1 and m != 1, f"filters with {n} and {m} channels cannot be combined")
        ctx.sign("error", op)
        return
    ctx.check(n == m or n == 1 or m == 1, f"filters with {n} and {m} channels were combined with {len(c)} channels")
    ctx.check(c.labels() == (label,) * max(n, m), f"labels {c.labels()} of {n} {op} {m}")
    expected = [func(2.0 + (i if n > 1 else 0), 7.0 + (i if m > 1 else 0)) for i in range(max(n, m))]
    ctx.check(gen.close(c(123.0), expected), f"{c(123.0)} instead of {expected}")
    for d in (func(a, 3.0), func(3.0, a), -a, abs(a), ~a):
        ctx.check(d.labels() == a.labels(), f"labels {d.labels()}")
    ctx.sign(op, n, m)


def unsupported(ctx):
    r = ctx.rng
    f = sumpf.Filter(transfer_functions=(ft.build(ft.Trees(ctx).tree(1)),))
    y = r.choice(("a", None, gen.signal(ctx), gen.spectrum(ctx), gen.spectrogram(ctx), numpy.ones(2), object()))
    name, op = r.choice((("f-y", lambda: f - y), ("y-f", lambda: y - f), ("f/y", lambda: f / y), ("y/f", lambda: y / f), ("f+y", lambda: f + y),
                         ("y+f", lambda: y + f)))
    ctx.event("op:unsupported")
    try:
        z = op()
    except TypeError:
        ctx.sign(name, type(y).__name__)
        return
    ctx.fail(f"{name} with y={gen.describe(y)} gave {type(z)} instead of a TypeError")


def factories(ctx):
    """the factories for the terms with any number of operands, including none at all and operands, that are zero"""
    r = ctx.rng
    gen_ = ft.Trees(ctx)
    zero_ = ("const", 0.0)
    n = r.choice((0, 1, 1, 2, 3, 4, 6))
    trees = [zero_ if r.random() < 0.25 else gen_.tree(r.randint(0, 1)) for _ in range(n)]
    tr = r.random() < 0.5
    kind = r.choice(("sum", "prod"))
    factory = {"sum": sumpf.Filter.Sum, "prod": sumpf.Filter.Product}[kind]
    terms_ = r.choice((tuple, list))(ft.build(t) for t in trees)
    name = {"sum": "summands", "prod": "factors"}[kind]
    term = factory(terms_, tr) if r.random() < 0.5 else factory(transform=tr, **{name: terms_})
    t = (kind, tuple(trees), tr) if trees else zero_
    ctx.event("op:factory")
    f = sumpf.Filter((term,))
    judge(ctx, gen_, [t], f, f"{kind} of {[ft.shape(x) for x in trees]} transform={tr}")
    if not trees or (kind == "prod" and zero_ in trees):
        ctx.check(term.is_zero(), f"the {kind} of {[ft.shape(x) for x in trees]} is not recognized as zero")
    if term.is_zero():
        fs = gen_.frequencies(4, [t])
        ctx.check((numpy.asarray(f(fs)) == 0).all(), lambda: f"the {kind} of {[ft.shape(x) for x in trees]} says, that it is zero, but it is {f(fs)}")
    ctx.sign(kind, tr, *(ft.shape(x) for x in trees))


def bands_pairs(ctx):
    """combinations of two bands filters or of one and a number between and outside of the supporting points"""
    r = ctx.rng
    I = list(ft.I)

    def leaf(xs):
        return ("bands", xs, tuple(r.uniform(0.3, 3.0) for _ in xs), r.choice(I), r.choice(I))

    xs = tuple(sorted({round(10.0 ** r.uniform(1.0, 4.0), 3) for _ in range(r.randint(1, 5))}))
    a = leaf(xs)
    k = r.random()
    if k < 0.3:
        b = leaf(xs)
    elif k < 0.5:
        b = leaf(xs)[0:3] + a[3:]
    elif k < 0.65:
        b = leaf(xs)[0:3] + ((a[3], r.choice(I)) if r.random() < 0.5 else (r.choice(I), a[4]))
    elif k < 0.8:
        b = leaf(tuple(x if i else x * 0.99 for i, x in enumerate(xs)))[0:3] + a[3:]
    elif k < 0.9:
        b = leaf(xs[0:-1])[0:3] + a[3:]
    else:
        b = ("const", r.choice((2.0, 3, -1.5, 0.25)))
    fs = sorted({float(x) for t in (a, b) if t[0] == "bands" for x in t[1]})
    grid = list(fs) + [(x * y) ** 0.5 for x, y in zip(fs, fs[1:])] + [0.3 * x + 0.7 * y for x, y in zip(fs, fs[1:])] + [fs[0] * 0.6, fs[-1] * 1.7] + [r.uniform(fs[0], fs[-1]) for _ in range(4)]
    grid = numpy.array([x for x in grid if x in fs or not any(abs(x - m) < 1e-6 * x for y in fs for z in fs for m in ((y * z) ** 0.5, 0.5 * (y + z)))])
    stairs = lambda t: t if t[0] == "const" or t[4] != ft.I.STAIRS_LOG else t[0:4] + (ft.I.STAIRS_LIN,)     # both extrapolate the same
    a, b = stairs(a), stairs(b)
    op = r.choice(("+", "-", "*", "/"))
    function = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}[op]
    if r.random() < 0.5:
        a, b = b, a
    f = function(*(sumpf.Filter((ft.build(t),)) if t[0] == "bands" or r.random() < 0.3 else t[1] for t in (a, b)))
    got = f(grid)[0]
    with numpy.errstate(all="ignore"):
        value = lambda t: ft.bands(t, grid) if t[0] == "bands" else numpy.full(grid.shape, complex(t[1]))
        candidates = [function(value(a), value(b))]
        if "const" in (a[0], b[0]):     # a constant can be applied to the bands' values
            t, c = (a, b) if b[0] == "const" else (b, a)
            ys = tuple(function(y, c[1]) if t is a else function(c[1], y) for y in t[2])
            candidates.append(ft.bands(t[0:2] + (ys,) + t[3:], grid))
        elif a[1] == b[1] and a[3:] == b[3:]:       # so can the operation itself, when both have the same structure
            candidates.append(ft.bands(a[0:2] + (tuple(function(x, y) for x, y in zip(a[2], b[2])),) + a[3:], grid))
            ctx.event("bands with the same structure")
        else:
            ctx.event("bands with different structures")
    ys = () if "const" in (a[0], b[0]) or a[1] != b[1] or a[3:] != b[3:] else [function(x, y) for x, y in zip(a[2], b[2])]
    negative = any(y < 0 for y in ys) and bool({ft.I.LOGARITHMIC, ft.I.LOG_Y} & set(a[3:]))
    scale = abs(value(a)) + abs(value(b)) + 1.0
    for i, x in enumerate(grid):
        wanted = [c[i] for c in candidates]
        if not all(numpy.isfinite(w) for w in wanted):
            continue
        if not numpy.isfinite(got[i]) and negative and x not in fs:
            ctx.event("logarithmic interpolation of negative values")      # it is not defined
            continue
        if x in fs and "const" not in (a[0], b[0]) and a[1] == b[1]:
            wanted = wanted[0:1]
        ctx.event("response value compared")
        ctx.check(any(abs(got[i] - w) <= 1e-9 * max(scale[i], abs(w)) for w in wanted), lambda: f"{a} {op} {b} at {x!r} Hz: {got[i]!r} instead of {wanted}")
    ctx.sign("bands pair", op, a[0], b[0], str(a[3:]), str(b[3:]), a[1] == b[1], a[3:] == b[3:])


def empty_polynomial(ctx):
    """polynomials without coefficients are zero"""
    r = ctx.rng
    gen_ = ft.Trees(ctx)
    e = ("poly", r.choice(((), [], numpy.empty(0))), r.random() < 0.5)
    zero_ = ("const", 0.0)
    x = r.choice((gen_.const(), gen_.leaf(), gen_.tree(1), e))
    other = zero_ if x is e else x
    term, y = ft.build(e), ft.build(x)
    name, result, t = r.choice((("e+x", lambda: term + y, other), ("x+e", lambda: y + term, other), ("e-x", lambda: term - y, ("neg", other, False)),
                                ("x-e", lambda: y - term, other), ("e*x", lambda: term * y, zero_), ("x*e", lambda: y * term, zero_),
                                ("-e", lambda: -term, zero_), ("abs(e)", lambda: abs(term), zero_), ("e/2", lambda: term / sumpf.Filter.Constant(2.0), zero_)))
    f = sumpf.Filter((result(),))
    ctx.event("empty polynomial")
    fs = gen_.frequencies(4)
    v, err = ft.evaluate(t, fs)
    got = numpy.broadcast_to(numpy.asarray(f(fs)[0]), fs.shape)
    ctx.check(bool((abs(got - v) <= 64 * err + 1e-13 * abs(v)).all()), lambda: f"{name} for an empty polynomial e and {ft.shape(x)} x: {got} instead of {v}")
    ctx.sign("empty polynomial", name, ft.shape(x))


def zero_operands(ctx):
    """operands, that are zero everywhere or only at the supporting points, so that they must not be simplified away"""
    r = ctx.rng
    gen_ = ft.Trees(ctx)
    xs = gen_.xs
    stairs = (ft.I.ZERO, ft.I.ONE, ft.I.LINEAR, ft.I.STAIRS_LIN, ft.I.LOG_X)
    z = r.choice((("const", 0.0), ("poly", (0.0,), r.random() < 0.5), ("poly", (0.0, 0.0), r.random() < 0.5), ("neg", ("const", 0.0), True),
                  *[("bands", xs, (0.0,) * len(xs), r.choice(stairs), r.choice(stairs)) for _ in range(4)]))
    ctx.event("zero operand")
    x = gen_.tree(r.randint(0, 1))
    term, y = ft.build(z), ft.build(x)
    F = sumpf.Filter
    tr = r.random() < 0.5 and z[0] != "bands"
    name, result, t = r.choice((("z+x", lambda: term + y, ("sum", (z, x), False)), ("x+z", lambda: y + term, ("sum", (x, z), False)),
                                ("z-x", lambda: term - y, ("diff", z, x, False)), ("x-z", lambda: y - term, ("diff", x, z, False)),
                                ("z*x", lambda: term * y, ("prod", (z, x), False)), ("x*z", lambda: y * term, ("prod", (x, z), False)),
                                ("z/x", lambda: term / y, ("quot", z, x, False)), ("-z", lambda: -term, ("neg", z, False)), ("abs(z)", lambda: abs(term), ("abs", z, False)),
                                ("Sum", lambda: F.Sum((y, term, y), tr), ("sum", (x, z, x), tr)), ("Product", lambda: F.Product((y, term, y), tr), ("prod", (x, z, x), tr)),
                                ("Difference", lambda: F.Difference(y, term, tr), ("diff", x, z, tr)), ("Difference2", lambda: F.Difference(term, y, tr), ("diff", z, x, tr)),
                                ("Quotient", lambda: F.Quotient(term, y, tr), ("quot", z, x, tr)), ("Negative", lambda: F.Negative(term, tr), ("neg", z, tr)),
                                ("Absolute", lambda: F.Absolute(term, tr), ("abs", z, tr)), ("--z", lambda: -(-term) * y, ("prod", (z, x), False)),
                                ("sum", lambda: (y + term) + (term + y), ("sum", (x, z, z, x), False)), ("prod", lambda: (y * term) * y, ("prod", (x, z, x), False))))
    f = sumpf.Filter((result(),))
    points = list(xs) + [a * 1.07 for a in xs] + [min(xs) * 0.7, max(xs) * 1.5]
    fs = numpy.array([a for a in points if a in xs or not any(abs(a - m) < 1e-6 * a for y_ in xs for z_ in xs for m in ((y_ * z_) ** 0.5, 0.5 * (y_ + z_)))])
    v, err = ft.evaluate(t, fs)
    got = numpy.broadcast_to(numpy.asarray(f(fs)[0]), fs.shape)
    good = numpy.isfinite(v) & numpy.isfinite(err) & (err < 1e-3)
    ctx.event("response value compared", int(good.sum()))
    ctx.check(bool((abs(got - v) <= 64 * err + 1e-13 * abs(v))[good].all()), lambda: f"{name} with z={z} and x={ft.shape(x)}: {got} instead of {v} at {fs} Hz")
    if term.is_zero():
        ctx.check(not numpy.any(sumpf.Filter((term,))(fs)[0]), lambda: f"{z} says, that it is zero, but it is {sumpf.Filter((term,))(fs)[0]} at {fs} Hz")
    ctx.sign("zero operand", name, z[0], str(z[3:]), x[0])


def probe_zero(ctx):
    lp, hp = sumpf.ButterworthFilter(1000.0, 2), sumpf.ButterworthFilter(1000.0, 2, highpass=True)
    got = (lp + hp)(0.0)[0]
    ctx.check(abs(got - 1.0) < 1e-9, f"(lowpass + highpass)(0 Hz) = {got}", key="zero-hertz-mixed-sum" if got == 0 else None)
    # a highpass in one channel leaves the others alone
    both = sumpf.Merge([hp, lp, hp]).output()
    for name, v in (("called", both(0.0)), ("called with an array", [c[0] for c in both(numpy.array([0.0, 10.0]))]),
                    ("sampled", both.spectrum(10.0, 3).channels()[:, 0])):
        ctx.check(abs(v[0]) == 0 and abs(v[1] - 1.0) < 1e-9 and abs(v[2]) == 0, f"channels highpass, lowpass, highpass {name} at 0 Hz: {v}")


PROBES = [("probe_zero", probe_zero)]
SCENARIOS = [("algebra", algebra, 1500, 25000), ("terms", terms, 1200, 20000), ("cancel", cancel, 1200, 15000),
             ("zero_hertz", zero_hertz, 600, 6000), ("labels", labels, 200, 2000), ("factories", factories, 800, 10000), ("bands_pairs", bands_pairs, 500, 8000), ("empty_polynomial", empty_polynomial, 200, 1500), ("zero_operands", zero_operands, 800, 8000), ("unsupported", unsupported, 120, 1000)]
