"""S03: slicing, padding, shifting and reversing keep samples at their time positions."""
import numpy
import sumpf
from . import gen

PROPERTY = "S03"
RULE = ("random data sets with pairwise different samples and random keys (integers, fractions, slices with open, negative and "
        "over-long bounds, tuples of them), padding lengths and shifts in all modes; the observed samples are compared to list "
        "slicing of the sample rows and the observed offset to the original time position of each sample.  Distinct by data type, "
        "key shape and the relation of the bounds to the length")
REQUIRED = ["slice:Signal", "slice:Spectrum", "slice:Spectrogram", "slice:Filter", "pad", "shift:OFFSET", "shift:CROP", "shift:PAD",
            "shift:CYCLE", "reverse", "negative integer key", "out of range slice"]


def numbered(ctx, what, max_length=11):
    r = ctx.rng
    c = gen.count(ctx, 1, 2, 3, 4)
    l = 0 if r.random() < 0.02 else gen.extent(ctx, max_length, divide=20 if what == "Spectrogram" else 1)
    if what == "Signal":
        ch = (numpy.arange(c * l, dtype=float) + 1.0).reshape(c, l)
        return sumpf.Signal(ch, sampling_rate=gen.rate(ctx), offset=gen.offset(ctx), labels=tuple(f"c{i}" for i in range(c)))
    if what == "Spectrum":
        ch = (numpy.arange(c * l) + 1.0 + 1j).reshape(c, l)
        return sumpf.Spectrum(ch, resolution=gen.rate(ctx), labels=tuple(f"c{i}" for i in range(c)))
    f = gen.extent(ctx, 6, divide=40)
    ch = (numpy.arange(c * f * l) + 1.0 - 2j).reshape(c, f, l)
    return sumpf.Spectrogram(ch, resolution=gen.rate(ctx), sampling_rate=gen.rate(ctx), offset=gen.offset(ctx),
                             labels=tuple(f"c{i}" for i in range(c)))


def fraction(ctx, n, negative=True):
    """a float index and the integer position, to which it corresponds"""
    while True:
        x = ctx.rng.choice((0.0, 1.0, 0.5, ctx.rng.random(), ctx.rng.random()))
        p = x * n
        if abs(p - numpy.floor(p) - 0.5) > 1e-3:
            return x, int(round(p))


def one_key(ctx, n, step=True):
    """returns (key, list of selected positions, first position or None for "unknown", class)"""
    r = ctx.rng
    rows = list(range(n))
    kind = r.choice(("int", "negint", "float", "slice", "slice", "slice", "slice", "fslice", "all", "step"))
    if n == 0 and kind in ("int", "negint", "float"):
        kind = "slice"
    if kind == "int":
        k = r.randrange(n)
        return k, [k], kind
    if kind == "negint":
        k = -r.randint(1, n)
        ctx.event("negative integer key")
        return k, [n + k], kind
    if kind == "float":
        x, p = fraction(ctx, n - 1)
        return x, [p], kind
    if kind == "all":
        return slice(None), rows, kind
    if kind == "fslice":
        bounds, ints = [], []
        for _ in range(2):
            if r.random() < 0.3:
                bounds.append(None)
                ints.append(None)
            else:
                x, p = fraction(ctx, n)
                if r.random() < 0.3 and 0.0 < x < 1.0 and 0 < p < n:
                    bounds.append(-x)       # from the back
                    ints.append(n - p)
                else:
                    bounds.append(x)
                    ints.append(p)
        return slice(*bounds), rows[slice(*ints)], kind

    def bound():
        m = r.randrange(6)
        if m == 0:
            return None
        if m <= 2:
            return r.randint(0, n)
        if m <= 4:
            return r.randint(-n, -1) if n else 0
        ctx.event("out of range slice")
        return r.choice((-1, 1)) * (n + r.randint(1, 5))
    a, b = bound(), bound()
    if kind == "step" and step:
        s = r.choice((2, 3, 1, -1, -2))
        return slice(a, b, s), rows[slice(a, b, s)], f"step{s}"
    return slice(a, b), rows[slice(a, b)], "slice"


def slicing(ctx):
    r = ctx.rng
    what = r.choice(("Signal", "Signal", "Spectrum", "Spectrogram", "Spectrogram"))
    x = numbered(ctx, what)
    dims = r.randint(1, len(x.shape()))
    keys, picks, kinds = [], [], []
    for d in range(dims):
        k, p, kind = one_key(ctx, x.shape()[d])
        keys.append(k)
        picks.append(p)
        kinds.append(kind)
    key = keys[0] if dims == 1 else (tuple(keys) if r.random() < 0.9 else list(keys))
    gen.warm(ctx, lambda: x[0], lambda: x[:, 1:], lambda: x[0:1, 0:-1], lambda: x[..., 0.5:], lambda: x[one_key(ctx, x.shape()[0])[0]], lambda: x[tuple(keys[0:1])], lambda: x.pad(3))
    result = x[key]
    ctx.event(f"slice:{what}")
    full = picks + [list(range(n)) for n in x.shape()[dims:]]
    source = x.channels()
    expected = source[numpy.ix_(*[numpy.array(p, dtype=int) for p in full])]
    desc = lambda m: f"{gen.describe(x)}[{key}]: {m}"
    ctx.check(type(result) is type(x), lambda: desc(type(result)))
    ctx.check(gen.exact(result.channels(), expected), lambda: desc(gen.diff(result.channels(), expected)))
    ctx.check(result.labels() == tuple(x.labels()[c] for c in full[0]), lambda: desc(f"labels {result.labels()}"))
    ctx.check(result.length() == len(full[-1]) and len(result) == len(full[0]), lambda: desc("length"))
    if what != "Signal":
        ctx.check(result.resolution() == x.resolution(), lambda: desc("resolution"))
    if what != "Spectrum":
        ctx.check(result.sampling_rate() == x.sampling_rate(), lambda: desc("sampling rate"))
        last = len(x.shape()) - 1
        kind = kinds[last] if dims > last else "all"
        if full[-1] and not kind.startswith("step-") and expected.size:
            ctx.check(result.offset() == x.offset() + full[-1][0],
                      lambda: desc(f"offset {result.offset()} instead of {x.offset() + full[-1][0]}"))
            ctx.event("time position checked")
    ctx.sign(what, dims, tuple(kinds), x.length() == 0)
    if ctx.index < 2:
        ctx.note(desc(gen.describe(result)))


def nested(ctx):
    """slices of slices: the time positions accumulate"""
    r = ctx.rng
    what = r.choice(("Signal", "Spectrogram"))
    x = numbered(ctx, what, 30)
    positions = {}      # sample value -> absolute position
    flat = x.channels().reshape(int(numpy.prod(x.shape()[:-1])), x.length())
    for row in flat:
        for i, v in enumerate(row):
            positions[complex(v)] = x.offset() + i
    y, steps = x, []
    for _ in range(r.randint(2, 4)):
        n = y.length()
        a = r.choice((None, r.randint(-n - 2, n + 2) if n else 0, r.randint(0, n)))
        b = r.choice((None, None, r.randint(-n - 2, n + 2) if n else 0))
        steps.append((a, b))
        y = y[..., a:b] if False else (y[:, a:b] if what == "Signal" else y[:, :, a:b])
    ctx.event(f"slice:{what}")
    for row in y.channels().reshape(-1, y.length()) if y.length() else ():
        for i, v in enumerate(row):
            ctx.check(positions[complex(v)] == y.offset() + i,
                      lambda: f"{gen.describe(x)} sliced with {steps}: the sample of time index {positions[complex(v)]} is at {y.offset() + i}")
    ctx.sign(what, len(steps), y.length() > 0)


def filters(ctx):
    r = ctx.rng
    n = gen.count(ctx, 1, 2, 3, 5)
    f = sumpf.Filter(transfer_functions=tuple(sumpf.Filter.Constant(float(i + 1)) for i in range(n)),
                     labels=tuple(f"c{i}" for i in range(n)))
    key, pick, kind = one_key(ctx, n)
    gen.warm(ctx, lambda: f[0], lambda: f[0:1], lambda: f[:], lambda: f[-1:], lambda: f[0.0:0.5])
    result = f[key] if r.random() < 0.5 and not isinstance(key, slice) else f[key]
    ctx.event("slice:Filter")
    desc = lambda m: f"filter with {n} channels [{key}]: {m}"
    ctx.check(len(result) == len(pick), lambda: desc(f"{len(result)} channels"))
    ctx.check(result.labels() == tuple(f"c{i}" for i in pick), lambda: desc(f"labels {result.labels()}"))
    ctx.check([complex(v) for v in result(10.0)] == [i + 1.0 for i in pick], lambda: desc(f"{result(10.0)}"))
    ctx.sign(kind, n)


def padding(ctx):
    r = ctx.rng
    what = r.choice(("Signal", "Spectrum", "Spectrogram"))
    x = numbered(ctx, what)
    length = r.choice((0, x.length(), r.randint(0, x.length()), x.length() + r.randint(1, 9), x.length() + 1, x.length() + gen.extent(ctx, 9)))
    value = r.choice((0.0, None, 2.5, -1, numpy.nan))
    gen.warm(ctx, lambda: x.pad(length), lambda: x.pad(length + 1, value or 0.0), lambda: x.pad(length, 0.75), lambda: x.pad(1), lambda: x.pad(x.length() + 2))
    result = x.pad(length) if value is None else (x.pad(length, value) if r.random() < 0.5 else x.pad(length=length, value=value))
    value = 0.0 if value is None else value
    rows = x.channels().reshape(-1, x.length()) if x.length() else numpy.empty((int(numpy.prod(x.shape()[:-1])), 0), dtype=x.channels().dtype)
    expected = numpy.array([(list(row) + [value] * length)[:length] if length > len(row) else list(row)[:length] for row in rows], dtype=x.channels().dtype)
    expected = expected.reshape(x.shape()[:-1] + (length,))
    ctx.event("pad")
    desc = lambda m: f"{gen.describe(x)}.pad({length}, {value}): {m}"
    ctx.check(gen.exact(result.channels(), expected), lambda: desc(gen.diff(result.channels(), expected)))
    ctx.check(result.labels() == x.labels() and result.length() == length, lambda: desc("labels or length"))
    if what != "Spectrum":
        ctx.check(result.offset() == x.offset() and result.sampling_rate() == x.sampling_rate(), lambda: desc("offset/sampling rate"))
    if what != "Signal":
        ctx.check(result.resolution() == x.resolution(), lambda: desc("resolution"))
    ctx.sign(what, (length > x.length()) - (length < x.length()), length == 0, str(value))


def shifting(ctx):
    r = ctx.rng
    what = r.choice(("Signal", "Spectrogram"))
    x = numbered(ctx, what)
    n = x.length()
    modes = (sumpf.Signal if what == "Signal" else sumpf.Spectrogram).shift_modes
    mode = r.choice(list(modes))
    shift = r.choice((0, 1, -1, r.randint(-n - 4, n + 4), r.randint(-n - 4, n + 4), n, -n, r.randint(1, max(1, n)), -r.randint(1, max(1, n))))
    if mode is modes.OFFSET and r.random() < 0.2:
        shift = None
    gen.warm(ctx, lambda: x.shift(shift), lambda: x.shift(1, mode), lambda: x.shift(shift, r.choice(list(modes))), lambda: x.shift(-2, modes.CROP), lambda: x.shift(None), lambda: x.shift(2, modes.PAD))
    result = x.shift(shift) if mode is modes.OFFSET and r.random() < 0.5 else x.shift(shift, mode)
    ctx.event(f"shift:{mode.name}")
    desc = lambda m: f"{gen.describe(x)}.shift({shift}, {mode}): {m}"
    rows = x.channels().reshape(int(numpy.prod(x.shape()[:-1])), n)
    offset, length = x.offset(), n
    s = shift or 0

    def build(row):
        row = list(row)
        if mode is modes.OFFSET:
            return row
        if mode is modes.CROP:
            return [row[i - s] if 0 <= i - s < n else 0.0 for i in range(n)]
        if mode is modes.PAD:
            return ([0.0] * s + row) if s >= 0 else (row + [0.0] * -s)
        return [row[(i - s) % n] for i in range(n)]
    if mode is modes.OFFSET:
        offset = 0 if shift is None else x.offset() + shift
    if mode is modes.PAD:
        length = n + abs(s)
    expected = numpy.array([build(row) for row in rows], dtype=x.channels().dtype).reshape(x.shape()[:-1] + (length,))
    key = None
    if mode is modes.CYCLE and n and abs(s) > n and gen.exact(result.channels(), x.channels()):
        key = "cyclic-shift-beyond-length"
    ctx.check(gen.exact(result.channels(), expected), lambda: desc(gen.diff(result.channels(), expected)), key=key)
    ctx.check(result.offset() == offset, lambda: desc(f"offset {result.offset()} instead of {offset}"))
    ctx.check(result.labels() == x.labels() and result.sampling_rate() == x.sampling_rate(), lambda: desc("labels/sampling rate"))
    if what == "Spectrogram":
        ctx.check(result.resolution() == x.resolution(), lambda: desc("resolution"))
    ctx.sign(what, mode.name, shift is None, (s > 0) - (s < 0), (abs(s) > n) - (abs(s) < n), n > 0)


def reverse_signal(ctx, x):
    result = reversed(x)
    n = x.length()
    ctx.event("reverse")
    desc = lambda m: f"reversed({gen.describe(x)}): {m}"
    expected = numpy.array([[row[n - 1 - i] for i in range(n)] for row in x.channels()], dtype=float).reshape(x.shape())
    ctx.check(gen.exact(result.channels(), expected), lambda: desc(gen.diff(result.channels(), expected)))
    ctx.check(result.labels() == x.labels() and result.sampling_rate() == x.sampling_rate(), lambda: desc("labels/sampling rate"))
    # the sample at time index t must now be at time index -t
    true_offset = -(x.offset() + n - 1)
    if n:
        key = "reversed-offset-sign" if result.offset() == n - x.offset() - 1 else None
        ctx.check(result.offset() == true_offset, lambda: desc(f"offset {result.offset()} instead of {true_offset}"), key=key)
    twice = reversed(result)
    ctx.check(gen.exact(twice.channels(), x.channels()), lambda: desc("reversing twice"))


def reversing(ctx):
    x = numbered(ctx, "Signal")
    reverse_signal(ctx, x)
    ctx.sign(x.length(), (x.offset() > 0) - (x.offset() < 0))


def probe_reversed(ctx):
    reverse_signal(ctx, sumpf.Signal(numpy.array([[1.0, 2.0, 3.0]]), offset=0))


def probe_cycle(ctx):
    x = sumpf.Signal(numpy.array([[1.0, 2.0, 3.0]]))
    y = x.shift(4, sumpf.Signal.shift_modes.CYCLE)
    ok = gen.exact(y.channels(), numpy.array([[3.0, 1.0, 2.0]]))
    ctx.check(ok, f"Signal([1, 2, 3]).shift(4, CYCLE) gives {y.channels()}",
              key="cyclic-shift-beyond-length" if gen.exact(y.channels(), x.channels()) else None)


PROBES = [("probe_reversed", probe_reversed), ("probe_cycle", probe_cycle)]
SCENARIOS = [("slicing", slicing, 9000, 120000),
             ("nested", nested, 1500, 15000),
             ("filters", filters, 500, 5000),
             ("padding", padding, 2000, 20000),
             ("shifting", shifting, 5000, 50000),
             ("reversing", reversing, 800, 6000),
             ("large slicing", gen.big(slicing, 100000, far=True), 30, 300),
             ("large nested", gen.big(nested, 5000, far=True), 4, 40),
             ("large filters", gen.big(filters, 100, far=True), 10, 100),
             ("large padding", gen.big(padding, 20000, far=True), 12, 120),
             ("large shifting", gen.big(shifting, 20000, far=True), 25, 250),
             ("large reversing", gen.big(reversing, 100000, far=True), 4, 40)]
