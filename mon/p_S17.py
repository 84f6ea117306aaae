"""S17: concatenation reflects exactly the current inputs in order."""
import threading
import numpy
import sumpf
from . import blocks
from . import gen

PROPERTY = "S17"
RULE = ("random histories of adding, replacing and removing data sets, and connecting, changing and disconnecting upstream blocks are performed on Concatenate blocks with data sets of random shape, "
        "offset (gaps, overlaps, also completely before or inside other data sets) and dtype; after random steps, the output is compared to the samples, that a reference model places at their "
        "absolute positions one by one.  Distinct by data type, number of data sets, kinds of the overlaps and the last steps of the history")
ASSUMPTIONS = ["the sampling rate and resolution of the first data set are used, when they differ, and the channels are labeled 'Concatenation 1', ... as the tests of SuMPF demand it; "
               "a single data set is returned as it is", "a connected block is added, when the concatenated data is requested or data is added the next time"]
REQUIRED = ["add", "replace", "remove", "connect", "change", "disconnect", "reconnect", "output:Signal", "output:Spectrogram", "nothing to concatenate", "single data set", "gap", "overlap", "contained",
            "before the first", "touching", "different channel counts", "different frequency counts", "mixed types rejected", "recovered after an error", "mixed dtypes", "empty data set", "chain", "split signal restored"]


def expected(datas):
    """the samples by their position, and the covered interval"""
    cls = blocks.kind(datas[0])
    arrays = [d.channels() for d in datas]
    position = 0
    intervals = []
    for d, a in zip(datas, arrays):
        start = position + d.offset()
        position = start + a.shape[-1]
        intervals.append((start, position))
    first, last = min(i[0] for i in intervals), max(i[1] for i in intervals)
    c = max(a.shape[0] for a in arrays)
    if cls is sumpf.Signal:
        result = numpy.zeros((c, last - first))
        for (start, _), a in zip(intervals, arrays):
            for i in range(a.shape[0]):
                for t in range(a.shape[1]):
                    result[i, start - first + t] += a[i, t]
    else:
        result = numpy.zeros((c, max(a.shape[1] for a in arrays), last - first), dtype=complex)
        for (start, _), a in zip(intervals, arrays):
            for i in range(a.shape[0]):
                for f in range(a.shape[1]):
                    for t in range(a.shape[2]):
                        result[i, f, start - first + t] += a[i, f, t]
    return result, first, intervals


def verify(ctx, what, got, datas):
    first = datas[0]
    cls = blocks.kind(first)
    if len(datas) == 1:
        ctx.event("single data set")
        ctx.check(got == first, lambda: f"{what}: one data set has been concatenated to {gen.describe(got)} instead of {gen.describe(first)}")
        return
    samples, offset, intervals = expected(datas)
    what = f"{what}: {blocks.describe(datas)} concatenated to {gen.describe(got)}"
    ctx.check(isinstance(got, cls), lambda: what)
    ctx.check(got.offset() == offset, lambda: f"{what}, expected the offset {offset}")
    ctx.check(got.channels().shape == samples.shape and gen.close(got.channels(), samples, rtol=1e-6 if any(d.channels().dtype in (numpy.float32, numpy.complex64) for d in datas) else 1e-12, atol=1e-12),
              lambda: f"{what}: {gen.diff(got.channels(), samples)}")
    ctx.check(got.sampling_rate() == first.sampling_rate(), lambda: f"{what}, expected the sampling rate {first.sampling_rate()}")
    ctx.check(got.labels() == tuple(f"Concatenation {i}" for i in range(1, len(samples) + 1)), lambda: what)
    if cls is sumpf.Spectrogram:
        ctx.check(got.resolution() == first.resolution(), lambda: f"{what}, expected the resolution {first.resolution()}")
        if len({d.number_of_frequencies() for d in datas}) > 1:
            ctx.event("different frequency counts")
    if len({len(d) for d in datas}) > 1:
        ctx.event("different channel counts")
    if len({d.channels().dtype for d in datas}) > 1:
        ctx.event("mixed dtypes")
    kinds = set()
    for i, (a, b) in enumerate(intervals):
        if a == b:
            kinds.add("empty data set")
            continue
        if i and a < intervals[0][0]:
            kinds.add("before the first")
        for c, d in intervals[0:i]:
            if c == d:
                continue
            if a == d or b == c:
                kinds.add("touching")
            elif a > d or b < c:
                kinds.add("gap")
            elif (a >= c and b <= d) or (a <= c and b >= d):
                kinds.add("contained")
            else:
                kinds.add("overlap")
    for k in kinds:
        ctx.event(k)
    ctx.event(f"output:{cls.__name__}")
    ctx.sign(cls.__name__, min(len(datas), 5), tuple(sorted(kinds)))


def creator(ctx, cls, offsets=None):
    r = ctx.rng
    offsets = offsets if offsets is not None else r.choice((0, 3, 12, 12, 40)) * r.choice((1, 1, 100) if getattr(ctx, "big", 0) else (1,))

    def create():
        off = r.randint(-offsets, offsets)
        if cls is sumpf.Signal:
            s = gen.signal(ctx, length=0 if r.random() < 0.04 else None, max_length=9, off=off)
            k = r.random()
            if k < 0.12:
                return sumpf.Signal(numpy.asarray(s.channels() * 4.0, dtype=int), sampling_rate=s.sampling_rate(), offset=off, labels=s.labels())
            if k < 0.18:
                return sumpf.Signal(s.channels().astype(numpy.float32), sampling_rate=s.sampling_rate(), offset=off, labels=s.labels())
            return s
        s = gen.spectrogram(ctx, off=off, length=0 if r.random() < 0.04 else None)
        k = r.random()
        if k < 0.2:
            return sumpf.Spectrogram(s.channels().real.copy(), resolution=s.resolution(), sampling_rate=s.sampling_rate(), offset=off, labels=s.labels())
        if k < 0.25:
            return sumpf.Spectrogram(s.channels().astype(numpy.complex64), resolution=s.resolution(), sampling_rate=s.sampling_rate(), offset=off, labels=s.labels())
        return s
    return create


CLASSES = (sumpf.Signal, sumpf.Signal, sumpf.Spectrogram)


def history(ctx):
    r = ctx.rng
    cls = r.choice(CLASSES)
    same = creator(ctx, cls)
    mixed = r.random() < 0.25

    def create():
        if mixed and r.random() < 0.15:
            return creator(ctx, r.choice(CLASSES))()
        return same()
    initial = [create() for _ in range(r.choice((0, 0, 1, 2, 3)))]
    block = sumpf.Concatenate(iter(initial) if r.random() < 0.3 else initial)
    h = blocks.History(ctx, block, create, initial)
    failed = False
    for _ in range(r.randint(2, 14)):
        h.step()
        if r.random() < 0.55:
            datas = h.data()
            what = f"after {h.log}"
            if not datas:
                try:
                    got = block.output()
                except RuntimeError:
                    ctx.event("nothing to concatenate")
                else:
                    ctx.fail(f"{what}: concatenating nothing gives {got!r}")
            elif len({blocks.kind(d) for d in datas}) > 1:
                try:
                    got = block.output()
                except Exception:       # pylint: disable=broad-except; which error is raised, is not specified
                    ctx.event("mixed types rejected")
                    failed = True
                else:
                    ctx.fail(f"{what}: {blocks.describe(datas)} have been concatenated to {gen.describe(got)}")
            else:
                verify(ctx, what, block.output(), datas)
                if failed:
                    ctx.event("recovered after an error")
                    failed = False
    ctx.note(f"{cls.__name__}: {h.log}")
    ctx.sign("history", cls.__name__, tuple(h.log[-3:]))


def restore(ctx):
    """the parts, in which a data set has been split, are concatenated to the original one"""
    r = ctx.rng
    if r.random() < 0.6:
        s = gen.signal(ctx, max_length=40, off=0)
    else:
        s = gen.spectrogram(ctx, length=gen.extent(ctx, 12, divide=20), off=0)
    n = s.length()
    cuts = sorted({0, n} | {r.randrange(n + 1) for _ in range(r.randint(1, 5))})
    parts = []
    for a, b in zip(cuts, cuts[1:]):
        p = s[:, :, a:b] if isinstance(s, sumpf.Spectrogram) else s[:, a:b]
        parts.append(p.shift(-p.offset() if r.random() < 0.5 else None))
    got = sumpf.Concatenate(parts).output()
    what = f"{gen.describe(s)} cut at {cuts} and concatenated"
    ctx.check(gen.exact(got.channels(), s.channels()), lambda: f"{what}: {gen.diff(got.channels(), s.channels())}")
    ctx.check(got.offset() == 0 and got.sampling_rate() == s.sampling_rate(), lambda: f"{what}: {gen.describe(got)}")
    ctx.event("split signal restored")
    ctx.sign("split", type(s).__name__, len(parts))


def chain(ctx):
    r = ctx.rng
    cls = r.choice(CLASSES)
    create = creator(ctx, cls, 4)
    sources = [blocks.Source(create()) for _ in range(r.randint(2, 4))]
    a, b = sumpf.Concatenate(), sumpf.Concatenate()
    for s in sources:
        a.add.connect(s.output)
    b.add.connect(a.output)
    b.add.connect(sources[0].output)
    for _ in range(r.randint(1, 4)):
        r.choice(sources).set_value(create())
        values = [s.value for s in sources]
        got = b.output()
        middle = a.output()
        verify(ctx, "chain", middle, values)
        verify(ctx, "chain", got, [middle, values[0]])
        ctx.event("chain")
    ctx.sign("chain", cls.__name__, len(sources))


def threads(ctx):
    r = ctx.rng
    cls = r.choice(CLASSES)
    create = creator(ctx, cls)
    datas = [create() for _ in range(r.randint(2, 4))]
    plans = [[r.choice(datas) for _ in range(r.randint(2, 4))] for _ in range(4)]
    results = [None] * len(plans)
    barrier = threading.Barrier(len(plans))

    def run(i):
        barrier.wait()
        try:
            block = sumpf.Concatenate()
            ids = [block.add(x) for x in plans[i]]
            block.output()
            block.replace(ids[0], datas[-1])
            block.output()
            block.replace(ids[0], plans[i][0])
            results[i] = block.output()
        except Exception as e:      # pylint: disable=broad-except
            results[i] = e
    ts = [threading.Thread(target=run, args=(i,)) for i in range(len(plans))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for p, got in zip(plans, results):
        if isinstance(got, Exception):
            raise got
        verify(ctx, "in several threads", got, p)
    ctx.sign("threads", cls.__name__)


SCENARIOS = [("history", history, 4000, 40000), ("restore", restore, 600, 6000), ("chain", chain, 600, 6000), ("threads", threads, 150, 1500), ("large history", gen.big(history, 3000), 8, 80), ("large restore", gen.big(restore, 70000), 6, 60)]
