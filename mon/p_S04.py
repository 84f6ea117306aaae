"""S04: equality, hashing and textual representation agree with content."""
import itertools
import numpy
import sumpf
from . import filters as ft
from . import gen

PROPERTY = "S04"
RULE = ("pairs of objects, that are copies of each other (rebuilt from the raw data, possibly in another memory layout, number type or "
        "as a result of computations) or that differ in exactly one aspect (one sample by one ulp or in one bit pattern, one label, the "
        "offset, the rate/resolution, the shape, the kind, one leaf or flag of a transfer function, one band) are compared with == and != in "
        "both directions, hashed, and put into sets; eval(repr(x)) must be an equal object.  Distinct by kind of object and aspect")
ASSUMPTIONS = ["samples are not NaN (a NaN is not equal to itself); representations are evaluated for finite samples",
               "the representations of the window and sweep subclasses are not evaluated",
               "filters are compared by the structure of their transfer functions, not by mathematical equivalence of different expressions"]
REQUIRED = ["equal pair", "unequal pair", "hash compared", "representation evaluated", "foreign object", "filter pair", "bands pair", "trivial terms compared"]

NAMES = {"array": numpy.array, "float64": numpy.float64, "complex128": numpy.complex128, "inf": numpy.inf, "nan": numpy.nan}
NAMES.update({n: getattr(sumpf, n) for n in ("Signal", "Spectrum", "Spectrogram", "Filter", "Bands")})


def same(ctx, a, b, what):
    ctx.event("equal pair")
    for x, y in ((a, b), (b, a)):
        ctx.check((x == y) is True or (x == y) == True, lambda: f"{what}: equal objects do not compare equal: {gen.describe(a)}, {gen.describe(b)}")     # noqa: E712
        ctx.check(not (x != y), lambda: f"{what}: equal objects are != : {gen.describe(a)}, {gen.describe(b)}")
    if not isinstance(a, sumpf.Filter):
        ctx.event("hash compared")
        ctx.check(hash(a) == hash(b), lambda: f"{what}: equal objects have different hashes: {gen.describe(a)}, {gen.describe(b)}")
        ctx.check(len({a, b}) == 1 and {a: 1}.get(b) == 1, lambda: f"{what}: equal objects are different dictionary keys")


def other(ctx, a, b, what):
    ctx.event("unequal pair")
    for x, y in ((a, b), (b, a)):
        try:
            eq, ne = x == y, x != y
        except Exception as e:      # pylint: disable=broad-except
            ctx.fail(f"{what}: comparing {gen.describe(x)} with {gen.describe(y)} raises {type(e).__name__}: {e}")
            return
        if isinstance(x, numpy.ndarray):
            continue
        ctx.check(not isinstance(eq, numpy.ndarray) and not eq, lambda: f"{what}: different objects compare equal: {gen.describe(x)}, {gen.describe(y)}")
        ctx.check(not isinstance(ne, numpy.ndarray) and bool(ne), lambda: f"{what}: different objects are not != : {gen.describe(x)}, {gen.describe(y)}")


def make(kind, d):
    if kind == "signal":
        return sumpf.Signal(channels=d["channels"], sampling_rate=d["sampling_rate"], offset=d["offset"], labels=d["labels"])
    if kind == "spectrum":
        return sumpf.Spectrum(channels=d["channels"], resolution=d["resolution"], labels=d["labels"])
    return sumpf.Spectrogram(channels=d["channels"], resolution=d["resolution"], sampling_rate=d["sampling_rate"], offset=d["offset"], labels=d["labels"])


def data(ctx, kind):
    r = ctx.rng
    c = gen.count(ctx, 1, 1, 2, 3)
    shape = (c, gen.extent(ctx, 9, 0)) if kind != "spectrogram" else (c, gen.extent(ctx, 4, divide=40), gen.extent(ctx, 5, 0, divide=20))
    if r.random() < 0.05:
        shape = (c, r.randint(1100, 1500)) if kind != "spectrogram" else (c, 34, 36)     # beyond NumPy's threshold for abbreviating representations
    how = r.choice(("nice", "int", "wide", "special"))
    v = gen.values(ctx, shape, how) if kind == "signal" else gen.cvalues(ctx, shape, how)
    if how == "special" and v.size and r.random() < 0.3:
        v.flat[r.randrange(v.size)] = r.choice((numpy.inf, -numpy.inf))
    d = {"channels": v, "labels": gen.labels(ctx, c)}
    if kind != "spectrum":
        d["sampling_rate"] = gen.rate(ctx)
        d["offset"] = gen.offset(ctx)
    if kind != "signal":
        d["resolution"] = r.choice((gen.rate(ctx), 1.0 / 3.0, 48000.0 / 7.0))
    return d


def equivalent(ctx, d):
    """the same content in another form"""
    r = ctx.rng
    d = dict(d)
    v = d["channels"]
    form = r.choice(("copy", "fortran", "view", "list", "int", "complex", "zeros", "numbers", "float32"))
    if form == "copy":
        d["channels"] = v.copy()
    elif form == "fortran":
        d["channels"] = numpy.asfortranarray(v)
    elif form == "view":
        big = numpy.zeros(tuple(2 * s for s in v.shape), dtype=v.dtype)
        index = tuple(slice(None, None, 2) for _ in v.shape)
        big[index] = v
        d["channels"] = big[index]
    elif form == "list":
        d["labels"] = list(d["labels"])
    elif form == "int" and v.dtype.kind == "f" and numpy.isfinite(v).all() and (v == numpy.round(v)).all() and (abs(v) < 1e9).all():
        d["channels"] = v.astype(int)
    elif form == "float32" and (v.astype(numpy.complex64 if v.dtype.kind == "c" else numpy.float32) == v).all():
        d["channels"] = v.astype(numpy.complex64 if v.dtype.kind == "c" else numpy.float32)
    elif form == "complex" and v.dtype.kind == "f" and numpy.isfinite(v).all():
        d["channels"] = v.astype(complex)
    elif form == "zeros":
        with numpy.errstate(all="ignore"):
            d["channels"] = numpy.where(v == 0, -v, v)
    elif form == "numbers":
        for k in ("sampling_rate", "resolution", "offset"):
            if k in d:
                d[k] = r.choice((float, numpy.float64))(d[k]) if k != "offset" else r.choice((numpy.int64, int))(d[k])
    else:
        d["channels"] = numpy.array(v.tolist(), dtype=v.dtype).reshape(v.shape)
    return form, d


def altered(ctx, kind, d):
    """differs in exactly one aspect"""
    r = ctx.rng
    d = dict(d)
    before = tuple(d["labels"])
    v = d["channels"]
    aspects = ["label", "label order", "label exchanged"]
    if v.size:
        aspects += ["sample", "ulp", "drop", "swap", "exchanged", "conjugate", "sign", "scale", "rolled"]
    aspects += [k for k in ("sampling_rate", "resolution", "offset") if k in d]
    aspects += ["append", "channel", "reshape"]
    aspect = r.choice(aspects)
    if aspect == "label":
        l = list(d["labels"])
        i = r.randrange(len(l))
        l[i] = l[i] + r.choice((" ", "x", "'"))
        d["labels"] = tuple(l)
    elif aspect == "label order":
        l = list(d["labels"])
        r.shuffle(l)
        d["labels"] = tuple(l)
    elif aspect == "label exchanged":       # the same set of labels
        l = list(d["labels"])
        l[r.randrange(len(l))] = r.choice(l)
        d["labels"] = tuple(l)
    elif aspect in ("exchanged", "conjugate", "sign", "scale", "rolled"):
        w = v.copy()
        if aspect == "exchanged":
            i, j = r.randrange(w.size), r.randrange(w.size)
            w.flat[i], w.flat[j] = v.flat[j], v.flat[i]
        elif aspect == "rolled":
            w = numpy.roll(w, r.choice((1, -1)), axis=r.randrange(w.ndim))
        else:
            w = {"conjugate": numpy.conj, "sign": numpy.negative, "scale": lambda x: 2.0 * x}[aspect](w)
        with numpy.errstate(all="ignore"):
            if not (w != v).any():
                return None, None
        d["channels"] = w
    elif aspect in ("sample", "ulp"):
        w = v.copy()
        i = r.randrange(w.size)
        x = w.flat[i]
        if aspect == "sample" or not numpy.isfinite(x):
            y = r.choice((-x, x + 1, 0.0, x * 1e-5))
        elif kind == "signal":
            y = numpy.nextafter(x, numpy.inf)
        else:
            y = complex(numpy.nextafter(x.real, numpy.inf), x.imag) if r.random() < 0.5 else complex(x.real, numpy.nextafter(x.imag, -numpy.inf))
        w.flat[i] = y
        if not (w != v).any():
            return None, None
        d["channels"] = w
    elif aspect == "drop":
        d["channels"] = v[..., :-1] if r.random() < 0.5 else v[..., 1:]
    elif aspect == "swap":
        w = numpy.flip(v, axis=r.randrange(v.ndim))
        if not (w != v).any():
            return None, None
        d["channels"] = w
    elif aspect == "append":
        d["channels"] = numpy.concatenate([v, numpy.zeros(v.shape[:-1] + (1,), dtype=v.dtype)], axis=-1)
    elif aspect == "channel":
        d["channels"] = numpy.concatenate([v, v[:1]], axis=0)
        d["labels"] = tuple(d["labels"]) + ("",)
    elif aspect == "reshape":
        w = v.reshape(v.shape[::-1]) if v.ndim == 2 else v.reshape((v.shape[0], v.shape[2], v.shape[1]))
        if w.shape == v.shape:
            return None, None
        d["channels"] = w
        d["labels"] = (tuple(d["labels"]) + ("",) * w.shape[0])[0:w.shape[0]]
    elif aspect == "offset":
        d["offset"] = d["offset"] + r.choice((1, -1, 1000))
    else:
        d[aspect] = r.choice((d[aspect] * 2, numpy.nextafter(d[aspect], 1e300), d[aspect] + 0.5))
    if aspect.startswith("label") and tuple(d["labels"]) == before:
        return None, None
    return aspect, d


FOREIGN = (None, 0, 1.5, "signal", (), [], {}, object(), numpy.float64(1.0), Ellipsis)


def foreign(ctx, x):
    ctx.event("foreign object")
    for f in FOREIGN:
        other(ctx, x, f, "comparison with another type")
    if not isinstance(x, sumpf.Filter):
        for f in (x.channels(), x.channels().tolist(), x.shape()):
            other(ctx, x, f, "comparison with another type")


def represent(ctx, x, what, frequencies=None):
    text = repr(x)
    if not isinstance(x, sumpf.Filter) and not numpy.isfinite(x.channels()).all():
        return      # the names "inf" and "nan" are not documented for the representations
    try:
        y = eval(text, dict(NAMES))     # pylint: disable=eval-used
    except Exception as e:      # pylint: disable=broad-except
        ctx.fail(f"{what}: evaluating the representation raises {type(e).__name__}: {e}: {text[:400]}")
        return
    ctx.event("representation evaluated")
    ctx.check(type(y) is type(x), lambda: f"{what}: the representation evaluates to a {type(y)}: {text[:300]}")
    if isinstance(x, sumpf.Filter) and x != y and frequencies is not None:
        # the factories may simplify, what the operators left unsimplified (known finding); the content must be the same nevertheless
        ctx.check(x.labels() == y.labels() and len(x) == len(y), lambda: f"{what}: the representation does not restore the labels: {text[:300]}")
        with numpy.errstate(all="ignore"):
            for a, b in zip(x(frequencies), y(frequencies)):
                good = numpy.isfinite(a) & numpy.isfinite(b)
                a, b = a[good], b[good]
                ctx.check(gen.close(a, b, 1e-6, 1e-9 * max([1e-300] + [abs(v) for v in numpy.ravel(a)])),
                          lambda: f"{what}: the representation does not restore the transfer function {gen.diff(a, b)}: {text[:600]}")
        ctx.fail(f"{what}: eval(repr(x)) is not equal to x, repr is {text[:600]}, repr of the copy is {y!r}", "repr-simplifies")
        return
    same(ctx, x, y, f"{what}: eval(repr(x)), repr is {text[:300]}")
    if not isinstance(x, sumpf.Filter):
        ctx.check(x.shape() == y.shape() and x.labels() == y.labels() and gen.exact(x.channels(), y.channels()),
                  lambda: f"{what}: the representation does not restore the content: {text[:300]}")
        for m in ("offset", "sampling_rate", "resolution"):
            if hasattr(x, m):
                ctx.check(getattr(x, m)() == getattr(y, m)(), lambda: f"{what}: the representation does not restore the {m}: {text[:300]}")


def sampled(ctx):
    r = ctx.rng
    kind = r.choice(("signal", "spectrum", "spectrogram"))
    d = data(ctx, kind)
    a = make(kind, d)
    same(ctx, a, a, f"{kind} and itself")
    for _ in range(2):
        form, e = equivalent(ctx, d)
        same(ctx, a, make(kind, e), f"{kind} {form}")
        ctx.sign(kind, "equal", form)
    for _ in range(4):
        aspect, e = altered(ctx, kind, d)
        if aspect is not None:
            b = make(kind, e)
            other(ctx, a, b, f"{kind} with different {aspect}")
            ctx.sign(kind, "different", aspect)
            if r.random() < 0.3:
                represent(ctx, b, kind)
    represent(ctx, a, kind)
    if r.random() < 0.3:
        foreign(ctx, a)
    # the same samples in objects of another kind
    k2 = r.choice([k for k in ("signal", "spectrum", "spectrogram") if k != kind])
    e = {"sampling_rate": 48000.0, "resolution": 1.0, "offset": 0}
    e.update(d)
    if k2 == "spectrogram":
        e["channels"] = e["channels"][:, numpy.newaxis, :]
    elif kind == "spectrogram":
        e["channels"] = e["channels"][:, 0, :]
    b = make(k2, e)
    other(ctx, a, b, f"{kind} and {k2}")
    other(ctx, a, sumpf.Filter(), f"{kind} and filter")
    ctx.sign(kind, "kind", k2)


def computed(ctx):
    """equal results of different computations are equal and have equal hashes"""
    r = ctx.rng
    a = gen.signal(ctx, kind="int")
    what, x, y = r.choice((("double negation", lambda: -(-a), lambda: a),
                           ("shift", lambda: a.shift(3).shift(-3), lambda: a),
                           ("padding", lambda: a.pad(a.length() + 4)[:, 0:a.length()], lambda: a.pad(a.length())),
                           ("slice", lambda: a[:], lambda: a),
                           ("channel", lambda: a[0], lambda: sumpf.Signal(a.channels()[0:1], a.sampling_rate(), a.offset(), a.labels()[0:1]))))
    same(ctx, x(), y(), what)
    ctx.sign("computed", what)


def mutate(ctx, t):
    """changes one node of an expression tree"""
    r = ctx.rng
    k = t[0]
    kids = list(ft.children(t))
    if kids and r.random() < 0.7:
        i = r.randrange(len(kids))
        what, kids[i] = mutate(ctx, kids[i])
        if k in ("abs", "neg"):
            return what, (k, kids[0], t[2])
        if k in ("sum", "prod"):
            return what, (k, tuple(kids), t[2])
        return what, (k, kids[0], kids[1], t[3])
    if k == "const":
        return "constant", ("const", t[1] * 1.5 + 0.25)
    if k == "poly":
        c = [float(x) for x in t[1]]
        what = r.choice(("coefficient", "length", "transform"))
        if what == "coefficient":
            i = r.randrange(len(c))
            c[i] = c[i] * 1.5 + 1e-3
        elif what == "length":
            c = c + [0.5]
        else:
            return what, ("poly", t[1], not t[2])
        return what, ("poly", tuple(c), t[2])
    if k == "exp":
        return r.choice((("coefficient", ("exp", t[1] * 2.0, t[2])), ("transform", ("exp", t[1], not t[2]))))
    if k == "bands":
        xs, ys, i, e = t[1:]
        what = r.choice(("x", "y", "interpolation", "extrapolation", "count"))
        if what == "x":
            xs = tuple(xs[:-1]) + (xs[-1] * 1.25,)
        elif what == "y":
            j = r.randrange(len(ys))
            ys = ys[:j] + (ys[j] + 0.5,) + ys[j + 1:]
        elif what == "count":
            xs, ys = tuple(xs) + (xs[-1] * 2.0,), tuple(ys) + (1.0,)
        else:
            old = i if what == "interpolation" else e
            new = r.choice([m for m in ft.I if m != old and {m, old} != {ft.I.STAIRS_LIN, ft.I.STAIRS_LOG}])
            if what == "interpolation":
                i = new
            else:
                e = new
        return what, ("bands", xs, ys, i, e)
    if k in ("abs", "neg", "sum", "prod") and r.random() < 0.5:
        return "transform", t[:-1] + (not t[-1],)
    if k in ("diff", "quot"):
        return "operation", ({"diff": "quot", "quot": "diff"}[k], t[1], t[2], t[3])
    if k in ("sum", "prod"):
        return "operation", ({"sum": "prod", "prod": "sum"}[k], t[1], t[2])
    return "operation", ({"abs": "neg", "neg": "abs"}[k], t[1], t[2])


def filters(ctx):
    r = ctx.rng
    g = ft.Trees(ctx, with_bands=r.random() < 0.5, complex_constants=True)
    n = r.choice((1, 1, 2, 3))
    trees = [g.tree(r.randint(0, 3)) for _ in range(n)]
    labels = gen.labels(ctx, n)
    build = lambda ts, lab: sumpf.Filter(transfer_functions=tuple(ft.build(t) for t in ts), labels=lab)
    a = build(trees, labels)
    ctx.event("filter pair")
    same(ctx, a, a, "a filter and itself")
    same(ctx, a, build(trees, list(labels)), "a filter and its rebuilt copy")
    fs = numpy.concatenate([g.frequencies(5), numpy.array(g.xs) * 1.07])
    points = g.frequencies(5, trees)
    represent(ctx, a, "filter", None if all(ft.size(t) == 1 for t in trees) else points)
    # the results of operators
    more = [g.tree(r.randint(0, 2)) for _ in range(n)]
    b = build(more, labels)
    c = r.choice((0.0, 1.0, g.value()))
    o, op = r.choice((("+", lambda: a + b), ("-", lambda: a - b), ("*", lambda: a * b), ("/", lambda: a / b), ("~", lambda: ~a), ("abs", lambda: abs(a)),
                      ("neg", lambda: -a), ("+n", lambda: a + c), ("n-", lambda: c - a), ("n*", lambda: c * a), ("n/", lambda: c / a), ("++", lambda: a + b + a),
                      ("--", lambda: -(-a)), ("+-", lambda: a - b + b)))
    with numpy.errstate(all="ignore"):
        try:
            x, y = op(), op()
        except ZeroDivisionError:
            x = y = a
    if "nan" not in repr(x):
        same(ctx, x, y, f"the results of the same operation {o}")
    if "inf" not in repr(x) and "nan" not in repr(x):
        represent(ctx, x, f"filter operation {o}", g.frequencies(5, trees + more))
    ctx.sign("operator", o, ft.shape(trees[0])[:30])
    # one label, one channel more or less, another transfer function
    i = r.randrange(n)
    other(ctx, a, build(trees, labels[:i] + (labels[i] + "x",) + labels[i + 1:]), "filter with different label")
    other(ctx, a, build(trees + trees[:1], labels + ("",)), "filter with additional channel")
    if n > 1:
        for l in (labels[::-1], labels[:1] * n, labels[1:] + labels[:1]):
            if l != labels:
                other(ctx, a, build(trees, l), "filter with the labels in another order")
    changed = list(trees)
    what, changed[i] = mutate(ctx, trees[i])
    b = build(changed, labels)
    # transforms of a frequency independent expression and the like may be dropped: only objects, that can be told apart from outside, have to differ
    with numpy.errstate(all="ignore"):
        ra, rb = a(fs)[i], b(fs)[i]
        distinct = (numpy.abs(ra - rb) > 1e-6 * numpy.maximum(abs(ra), abs(rb))).any() if numpy.isfinite(ra).all() and numpy.isfinite(rb).all() else False
    if distinct:
        other(ctx, a, b, f"filter with different {what}: {ft.shape(trees[i])}")
        ctx.sign("filter", what, ft.shape(trees[i])[:40])
    else:
        try:
            eq = a == b
            ctx.check((b == a) == eq and (a != b) == (not eq) and (b != a) == (not eq), lambda: f"comparison of filters is inconsistent ({what}): {a!r} {b!r}")
        except Exception as e:      # pylint: disable=broad-except
            ctx.fail(f"comparing filters raises {type(e).__name__}: {e} ({what}): {a!r} {b!r}")
    # unrelated filters
    c = build([g.tree(r.randint(0, 2)) for _ in range(r.choice((n, n, 2)))], gen.labels(ctx, n))
    try:
        eq = a == c
        ctx.check((c == a) == eq and (a != c) == (not eq), lambda: f"comparison of filters is inconsistent: {a!r} {c!r}")
        if eq:
            ctx.check(len(a) == len(c) and a.labels() == c.labels(), lambda: f"different filters compare equal: {a!r} {c!r}")
            with numpy.errstate(all="ignore"):
                for x, y in zip(a(fs), c(fs)):
                    ctx.check(gen.close(x, y, 1e-9), lambda: f"different filters compare equal: {a!r} {c!r}")
    except TypeError as e:
        ctx.fail(f"comparing filters raises {type(e).__name__}: {e}: {a!r} {c!r}")
    if r.random() < 0.2:
        foreign(ctx, a)
        other(ctx, a, gen.signal(ctx), "filter and signal")
        other(ctx, a, gen.spectrum(ctx), "filter and spectrum")


STANDARD = (lambda r: (sumpf.ButterworthFilter, {"cutoff_frequency": r.choice((100.0, 1e3)), "order": r.choice((1, 2, 5)), "highpass": r.choice((True, False))}),
            lambda r: (sumpf.BesselFilter, {"cutoff_frequency": r.choice((100.0, 1e3)), "order": r.choice((1, 2, 5)), "highpass": r.choice((True, False))}),
            lambda r: (sumpf.Chebyshev1Filter, {"ripple": r.choice((1.0, 3.0)), "cutoff_frequency": r.choice((100.0, 1e3)), "order": r.choice((2, 5)), "highpass": r.choice((True, False))}),
            lambda r: (sumpf.Chebyshev2Filter, {"ripple": r.choice((10.0, 30.0)), "cutoff_frequency": r.choice((100.0, 1e3)), "order": r.choice((2, 5)), "highpass": r.choice((True, False))}),
            lambda r: (sumpf.DelayFilter, {"delay": r.choice((0.5, 1.0))}))


def trivial(ctx):
    """terms, that are constant, zero or cancel: equality is symmetric, transitive, and equal filters have the same response"""
    r = ctx.rng
    F, I = sumpf.Filter, ft.I
    C = F.Constant

    def make_term(depth):
        k = r.randrange(9 if depth else 5)
        v = r.choice((0.0, 0.0, 1.0, -1.0, 0, 1, 0j))
        if k == 0:
            return C(v)
        if k == 1:
            return F.Polynomial(r.choice(((), (v,), (0.0, v), (v, 0.0))), r.random() < 0.3)
        if k == 2:
            return F.Exp(v, r.random() < 0.3)
        if k == 3:
            return F.Bands(*r.choice((((), ()), ((10.0,), (v,)), ((10.0, 20.0), (v, v)))), r.choice((I.ZERO, I.ONE, I.LINEAR)), r.choice((I.ZERO, I.ONE, I.STAIRS_LIN)))
        if k == 4:
            return r.choice((F.Sum, F.Product))(())
        a, b = make_term(depth - 1), make_term(depth - 1)
        if k == 5:
            return a + b if r.random() < 0.5 else F.Sum((a, b))
        if k == 6:
            return a - b if r.random() < 0.5 else F.Difference(a, b)
        if k == 7:
            return a * b if r.random() < 0.5 else F.Product((a, b))
        return -a if r.random() < 0.5 else abs(a)

    pool = [sumpf.Filter((make_term(r.choice((0, 0, 1, 2))),), ("x",)) for _ in range(7)]
    fs = numpy.array([5.0, 10.0, 13.0, 20.0, 31.0])
    with numpy.errstate(all="ignore"):
        responses = [numpy.broadcast_to(numpy.asarray(f(fs)[0]), fs.shape) for f in pool]
    ctx.event("trivial terms compared")
    eq = [[bool(a == b) for b in pool] for a in pool]
    for i, a in enumerate(pool):
        ctx.check(eq[i][i] or numpy.isnan(responses[i]).any(), lambda: f"{a!r} is not equal to itself")
        for j, b in enumerate(pool):
            ctx.check(eq[i][j] == eq[j][i] and bool(a != b) != eq[i][j], lambda: f"comparing {a!r} and {b!r}: == {eq[i][j]}, reversed {eq[j][i]}, != {a != b}")
            if eq[i][j]:
                ctx.check(numpy.array_equal(responses[i], responses[j], equal_nan=True), lambda: f"{a!r} and {b!r} are equal, but have the responses {responses[i]} and {responses[j]}")
                for k, c in enumerate(pool):
                    ctx.check(not eq[j][k] or eq[i][k], lambda: f"{a!r} equals {b!r}, which equals {c!r}, but the first one does not equal the last one")
    ctx.sign("trivial", sum(map(sum, eq)), type(pool[0].transfer_functions()[0]).__name__, type(pool[1].transfer_functions()[0]).__name__)


def standard(ctx):
    """filters with equal parameters are equal, with different ones they are not"""
    r = ctx.rng
    make_ = r.choice(STANDARD)
    (c, p), (_, q) = make_(r), make_(r)
    a, b = c(**p), c(**q)
    ctx.event("filter pair")
    if p == q:
        same(ctx, a, b, f"{c.__name__} {p}")
    else:
        other(ctx, a, b, f"{c.__name__} {p} {q}")
    same(ctx, a, c(**p), f"{c.__name__} {p}")
    same(ctx, a, sumpf.Filter(a.transfer_functions(), a.labels()), f"{c.__name__} as filter")
    represent(ctx, sumpf.Filter(a.transfer_functions(), a.labels()), f"{c.__name__} as filter")
    ctx.sign(c.__name__, p == q)


def bands(ctx):
    r = ctx.rng
    n = r.choice((1, 1, 2, 3))
    g = ft.Trees(ctx)
    raw = []
    for _ in range(n):
        fs = sorted(r.uniform(1.0, 2e4) for _ in range(r.randint(0, 5)))
        if r.random() < 0.5:
            r.shuffle(fs)
        if r.random() < 0.3:
            fs = [int(f) for f in fs]
        raw.append({f: r.choice((r.uniform(-3, 3), r.randint(-3, 3), complex(r.uniform(-2, 2), r.uniform(-2, 2)))) for f in fs})
    ip = [r.choice(list(ft.I)) for _ in range(n)]
    ep = [r.choice(list(ft.I)) for _ in range(n)]
    labels = gen.labels(ctx, n)
    build = lambda b, i, e, l: sumpf.Bands(bands=b, interpolations=i, extrapolations=e, labels=l)
    a = build(raw, ip, ep, labels)
    ctx.event("bands pair")
    ordered = [dict(sorted(b.items(), reverse=True)) for b in raw]
    same(ctx, a, build(ordered, tuple(ip), tuple(ep), list(labels)), "bands filter and its copy")
    represent(ctx, a, "bands")
    j = r.randrange(n)
    aspect = r.choice(("value", "frequency", "count", "interpolation", "extrapolation", "label", "order", "exchanged"))
    b2, i2, e2, l2 = [dict(x) for x in raw], list(ip), list(ep), list(labels)
    if aspect == "label":
        l2[j] += "x"
    elif aspect == "order":
        part = r.choice((b2, i2, e2, l2))
        before = list(part)
        part.reverse()
        stairs = {ft.I.STAIRS_LIN, ft.I.STAIRS_LOG}
        if part == before or not all(raw) or (part in (i2, e2) and all(x == y or {x, y} == stairs for x, y in zip(part, before))):
            return
    elif aspect == "exchanged":     # the values of two supporting points
        if len(raw[j]) < 2:
            return
        k, l = r.sample(list(raw[j]), 2)
        b2[j][k], b2[j][l] = raw[j][l], raw[j][k]
        if b2[j] == raw[j]:
            return
    elif aspect in ("interpolation", "extrapolation"):
        l = i2 if aspect == "interpolation" else e2
        l[j] = r.choice([m for m in ft.I if m != l[j] and {m, l[j]} != {ft.I.STAIRS_LIN, ft.I.STAIRS_LOG}])
        if not raw[j]:
            return
    elif aspect == "count" or not raw[j]:
        b2[j][r.uniform(1.0, 2e4)] = 1.0
    else:
        k = r.choice(list(raw[j]))
        if aspect == "value":
            b2[j][k] = raw[j][k] + 0.5
        else:
            b2[j][k + 0.125] = b2[j].pop(k)
    other(ctx, a, build(b2, i2, e2, l2), f"bands filter with different {aspect}")
    ctx.sign("bands", aspect, n)
    plain = sumpf.Filter(a.transfer_functions(), a.labels())
    eq = a == plain
    ctx.check((plain == a) == eq and (a != plain) == (not eq), "comparison between bands filter and filter is inconsistent")
    if r.random() < 0.2:
        foreign(ctx, a)


def unsimplified(ctx):
    """the known finding: operators do not simplify in all cases, in which the factories do"""
    f = sumpf.Filter((sumpf.Filter.Exp(0.5),)) + sumpf.Filter((sumpf.Filter.Constant(0.0),))
    represent(ctx, f, "sum with zero", numpy.array([1.0, 2.5]))


PROBES = [("unsimplified", unsimplified)]
SCENARIOS = [("sampled", sampled, 3000, 60000), ("computed", computed, 300, 5000), ("filters", filters, 1200, 30000), ("trivial", trivial, 400, 5000),
             ("standard", standard, 200, 4000), ("bands", bands, 600, 12000),
             ("large sampled", gen.big(sampled, 3000, far=True), 8, 80), ("large computed", gen.big(computed, 100000, far=True), 4, 40)]
