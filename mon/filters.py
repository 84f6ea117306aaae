"""Expression trees for filters: real objects, an independent evaluation with error bounds, random generation.

A tree is a tuple:  ("const", v) ("poly", coefficients, transform) ("exp", c, transform) ("bands", xs, ys, interp, extrap)
("abs", t, transform) ("neg", t, transform) ("sum", (t...), transform) ("diff", a, b, transform) ("prod", (t...), transform)
("quot", a, b, transform)
"""
import numpy
import sumpf

I = sumpf.Bands.interpolations
EPS = 2.3e-16


def build(t):
    """creates the term with the factories of the Filter class"""
    F = sumpf.Filter
    k = t[0]
    if k == "const":
        return F.Constant(t[1])
    if k == "poly":
        return F.Polynomial(coefficients=t[1], transform=t[2])
    if k == "exp":
        return F.Exp(coefficient=t[1], transform=t[2])
    if k == "bands":
        return F.Bands(xs=numpy.array(t[1]), ys=numpy.array(t[2]), interpolation=t[3], extrapolation=t[4])
    if k == "abs":
        return F.Absolute(value=build(t[1]), transform=t[2])
    if k == "neg":
        return F.Negative(value=build(t[1]), transform=t[2])
    if k == "sum":
        return F.Sum(summands=tuple(build(x) for x in t[1]), transform=t[2])
    if k == "diff":
        return F.Difference(minuend=build(t[1]), subtrahend=build(t[2]), transform=t[3])
    if k == "prod":
        return F.Product(factors=tuple(build(x) for x in t[1]), transform=t[2])
    if k == "quot":
        return F.Quotient(numerator=build(t[1]), denominator=build(t[2]), transform=t[3])
    raise ValueError(k)


def children(t):
    if t[0] in ("abs", "neg"):
        return (t[1],)
    if t[0] in ("sum", "prod"):
        return t[1]
    if t[0] in ("diff", "quot"):
        return (t[1], t[2])
    return ()


def transform_of(t):
    return t[-1] if t[0] not in ("const", "bands") else False


def any_node(t, predicate):
    return predicate(t) or any(any_node(c, predicate) for c in children(t))


def has_transform(t):
    return any_node(t, transform_of)


def has_bands(t):
    return any_node(t, lambda n: n[0] == "bands")


def size(t):
    return 1 + sum(size(c) for c in children(t))


def shape(t):
    """a short structural signature"""
    s = t[0] + ("'" if transform_of(t) else "")
    c = children(t)
    return s + ("(" + ",".join(shape(x) for x in c) + ")" if c else "")


def evaluate(t, f, inverted=False, zero_rule=False):
    """(values, error bound) at the non-zero frequencies f, from the definitions.

    With ``zero_rule``, transformed terms have the documented value 0 at f=0; otherwise f must not contain 0.
    """
    f = numpy.asarray(f, dtype=float)
    tr = transform_of(t)
    inv = inverted != tr
    k = t[0]
    if k == "const":
        v = numpy.full(f.shape, complex(t[1]))
        e = EPS * abs(v)
    elif k == "bands":
        v = bands(t, f)
        e = 1e-10 * abs(v) + 1e-13
    elif k in ("poly", "exp"):
        with numpy.errstate(all="ignore"):
            s = 2j * numpy.pi * f
            s = numpy.where(s == 0, numpy.nan, 1.0 / s) if inv else s
        if k == "poly":
            v = numpy.zeros(f.shape, dtype=complex)
            e = numpy.zeros(f.shape)
            n = len(t[1])
            for i, c in enumerate(t[1]):
                p = c * s ** (n - 1 - i) if n - 1 - i else numpy.full(f.shape, complex(c))
                v = v + p
                e = e + 8 * n * EPS * abs(p)
        else:
            x = t[1] * s
            v = numpy.exp(x)
            e = abs(v) * EPS * (4 + 4 * abs(x))
    elif k == "abs":
        v, e = evaluate(t[1], f, inv, zero_rule)
        v = abs(v) + 0j
    elif k == "neg":
        v, e = evaluate(t[1], f, inv, zero_rule)
        v = -v
    elif k in ("sum", "diff"):
        parts = [evaluate(c, f, inv, zero_rule) for c in children(t)]
        v, e = parts[0]
        for w, d in parts[1:]:
            v = v + w if k == "sum" else v - w
            e = e + d + 2 * EPS * (abs(v) + abs(w))
    elif k == "prod":
        parts = [evaluate(c, f, inv, zero_rule) for c in children(t)]
        v, e = parts[0]
        for w, d in parts[1:]:
            e = e * abs(w) + d * abs(v) + e * d + 4 * EPS * abs(v * w)
            v = v * w
    else:
        a, ea = evaluate(t[1], f, inv, zero_rule)
        b, eb = evaluate(t[2], f, inv, zero_rule)
        with numpy.errstate(all="ignore"):
            v = a / b
            room = abs(b) - eb
            e = numpy.where(room > 0, (ea + abs(v) * eb) / numpy.where(room > 0, room, 1.0) + 6 * EPS * abs(v), numpy.inf)
    if zero_rule and tr and any_node(t, lambda n: n[0] in ("poly", "exp")):
        v = numpy.where(f == 0, 0.0, v)
        e = numpy.where(f == 0, 0.0, e)
    return v, e


def bands(t, f):
    """bands interpolation from its documentation, one frequency at a time"""
    xs, ys, interp, extrap = t[1:]
    return numpy.array([band_value(list(xs), list(ys), I(interp), I(extrap), float(x)) for x in f.ravel()], dtype=complex).reshape(f.shape)


def band_value(xs, ys, interp, extrap, x):
    if not xs:
        return 0.0
    if x in xs:
        return ys[xs.index(x)]
    mode = interp if xs[0] <= x <= xs[-1] else extrap
    if mode == I.ZERO:
        return 0.0
    if mode == I.ONE:
        return 1.0
    if mode in (I.STAIRS_LIN, I.STAIRS_LOG):
        if x < xs[0]:
            return ys[0]
        if x > xs[-1]:
            return ys[-1]
        g = (lambda a: a) if mode == I.STAIRS_LIN else numpy.log
        d = [abs(g(x) - g(a)) for a in xs]
        return ys[d.index(min(d))]
    if len(xs) == 1:
        return ys[0]
    i = 0
    while i < len(xs) - 2 and x > xs[i + 1]:
        i += 1
    ln = lambda v: numpy.log(complex(v)) if isinstance(v, complex) or v < 0 else numpy.log(v)
    gx = (lambda a: a) if mode in (I.LINEAR, I.LOG_Y) else numpy.log
    gy = ln if mode in (I.LOGARITHMIC, I.LOG_Y) else (lambda a: a)
    with numpy.errstate(all="ignore"):
        w = (gx(x) - gx(xs[i])) / (gx(xs[i + 1]) - gx(xs[i]))
        y = gy(ys[i]) * (1.0 - w) + gy(ys[i + 1]) * w
        return numpy.exp(y) if mode in (I.LOGARITHMIC, I.LOG_Y) else y


class Trees:
    """random generation; ``f0`` is the frequency, around which the terms have moderate values"""

    def __init__(self, ctx, f0=None, with_bands=False, complex_constants=True):
        self.r = ctx.rng
        self.f0 = f0 if f0 is not None else 10.0 ** self.r.uniform(0.0, 4.0)
        self.with_bands = with_bands
        self.complex_constants = complex_constants
        n = self.r.randint(1, 5)
        self.xs = tuple(sorted(self.f0 * 10.0 ** self.r.uniform(-1, 1) for _ in range(n)))

    def value(self):
        r = self.r
        return r.choice((-1.0, 1.0)) * r.uniform(0.3, 3.0)

    def const(self):
        r = self.r
        v = r.choice((self.value(), self.value(), 1.0, -1.0, 2, 0.5, self.value() + 1j * self.value() if self.complex_constants else 3.0))
        return ("const", v)

    def leaf(self, transforms=True):
        r = self.r
        k = r.randrange(8)
        tr = transforms and r.random() < 0.4
        w0 = 2.0 * numpy.pi * self.f0
        if tr:
            w0 = 1.0 / w0
        if k == 0:
            return self.const()
        if k == 1:
            return ("exp", self.value() / w0, tr)
        if k == 2 and self.with_bands:
            return self.bands_leaf()
        n = r.choice((1, 2, 2, 3, 3, 4))
        c = tuple(float(self.value() / w0 ** (n - 1 - i)) if i == 0 or r.random() < 0.85 else 0.0 for i in range(n))
        if r.random() < 0.1:
            c = (0.0,) + c
        return ("poly", r.choice((tuple, list, numpy.array))(c) if r.random() < 0.5 else c, tr)

    def bands_leaf(self):
        r = self.r
        ys = tuple(r.uniform(0.3, 3.0) for _ in self.xs)
        if r.random() < 0.3:
            ys = tuple(y * complex(r.uniform(-1, 1), r.uniform(0.1, 1)) for y in ys)
        return ("bands", self.xs, ys, r.choice(list(I)), r.choice(list(I)))

    def tree(self, depth, transforms=True):
        r = self.r
        if depth == 0 or r.random() < 0.15:
            return self.leaf(transforms)
        k = r.choice(("abs", "neg", "sum", "sum", "diff", "diff", "prod", "prod", "quot", "quot"))
        tr = transforms and r.random() < 0.35
        sub = lambda: self.tree(depth - 1, transforms)
        if k in ("abs", "neg"):
            return (k, sub(), tr)
        if k in ("sum", "prod"):
            return (k, tuple(sub() for _ in range(r.choice((1, 2, 2, 3, 4)))), tr)
        return (k, sub(), sub(), tr)

    def frequencies(self, n, trees=()):
        """random frequencies (array) around f0; only supporting points, when bands are involved"""
        r = self.r
        if any(has_bands(t) for t in trees):
            return numpy.array(r.choices(self.xs, k=n))
        return numpy.array([self.f0 * 10.0 ** r.uniform(-1.2, 1.2) for _ in range(n)])


def compare(ctx, got, value, error, what, factor=64.0):
    """judges the well conditioned points of an evaluated response"""
    got, value, error = numpy.broadcast_arrays(numpy.asarray(got), value, error)
    for g, v, e in zip(got.ravel(), value.ravel(), error.ravel()):
        if not numpy.isfinite(v) or not numpy.isfinite(e) or e > 1e-6 * abs(v) or abs(v) > 1e100:
            ctx.event("ill conditioned point skipped")
            continue
        ctx.event("response value compared")
        ctx.check(abs(g - v) <= factor * e + 1e-13 * abs(v), lambda: f"{what}: got {g!r}, expected {v!r} (rounding error bound {e:.3g})")
