"""S16: merging reflects exactly the current inputs."""
import threading
import numpy
import sumpf
from . import blocks
from . import filters as ft
from . import gen

PROPERTY = "S16"
RULE = ("random histories of adding, replacing and removing data sets, connecting, changing and disconnecting upstream blocks and changing the mode are performed on Merge blocks (also "
        "chains of blocks) with data sets of random type, shape, offset and dtype; after random steps, the output is compared to the channels, that a reference model of the inputs "
        "places at their absolute positions.  Distinct by data type, mode, number of data sets, relation of their shapes and the last steps of the history")
ASSUMPTIONS = ["the meta data of the first data set is used (as documented), when the sampling rates or resolutions differ", "a connected block is added, when the merged data is requested or data is added the next time"]
REQUIRED = ["add", "replace", "remove", "connect", "change", "disconnect", "reconnect", "mode changed", "output:Signal", "output:Spectrum", "output:Spectrogram", "output:Filter", "nothing to merge",
            "single data set", "mixed types rejected", "recovered after an error", "different offsets", "different lengths", "different channel counts", "FIRST_DATASET_FIRST", "FIRST_CHANNELS_FIRST", "chain", "repeated read"]
M = sumpf.Merge.modes


def order(lengths, mode):
    """the (data set, channel) pairs in the order of the merged channels"""
    if mode is M.FIRST_DATASET_FIRST:
        return [(d, c) for d, n in enumerate(lengths) for c in range(n)]
    return [(d, c) for c in range(max(lengths)) for d, n in enumerate(lengths) if c < n]


def expected(datas, mode):
    """(channels, offset, labels)"""
    pairs = order([len(d) for d in datas], mode)
    labels = tuple(datas[d].labels()[c] for d, c in pairs)
    cls = blocks.kind(datas[0])
    if cls is sumpf.Filter:
        return [datas[d].transfer_functions()[c] for d, c in pairs], 0, labels
    offsets = [d.offset() if cls is not sumpf.Spectrum else 0 for d in datas]
    arrays = [d.channels() for d in datas]
    start = min(offsets)
    stop = max(o + a.shape[-1] for o, a in zip(offsets, arrays))
    if cls is sumpf.Spectrum:
        start = 0
    if cls is sumpf.Spectrogram:
        result = numpy.zeros((len(pairs), max(a.shape[1] for a in arrays), stop - start), dtype=complex)
        for i, (d, c) in enumerate(pairs):
            for f in range(arrays[d].shape[1]):
                for t in range(arrays[d].shape[2]):
                    result[i, f, offsets[d] + t - start] = arrays[d][c, f, t]
    else:
        result = numpy.zeros((len(pairs), stop - start), dtype=float if cls is sumpf.Signal else complex)
        for i, (d, c) in enumerate(pairs):
            for t in range(arrays[d].shape[1]):
                result[i, offsets[d] + t - start] = arrays[d][c, t]
    return result, start, labels


def verify(ctx, what, got, datas, mode):
    first = datas[0]
    cls = blocks.kind(first)
    if len(datas) == 1:
        ctx.event("single data set")
        ctx.check(got == first, lambda: f"{what}: one data set has been merged to {gen.describe(got)} instead of {gen.describe(first)}")
        return
    channels, offset, labels = expected(datas, mode)
    what = f"{what}: {blocks.describe(datas)} in mode {mode.name} merged to {gen.describe(got)}"
    ctx.check(isinstance(got, cls), lambda: what)
    ctx.check(got.labels() == labels, lambda: f"{what}, expected the labels {labels}")
    if cls is sumpf.Filter:
        tfs = got.transfer_functions()
        ctx.check(len(tfs) == len(channels) and all(a == b for a, b in zip(tfs, channels)), lambda: f"{what}, expected the transfer functions {channels}")
    else:
        ctx.check(got.channels().shape == channels.shape and gen.exact(got.channels(), channels), lambda: f"{what}: {gen.diff(got.channels(), channels)}")
        if cls is not sumpf.Spectrum:
            ctx.check(got.offset() == offset, lambda: f"{what}, expected the offset {offset}")
            ctx.check(got.sampling_rate() == first.sampling_rate(), lambda: f"{what}, expected the sampling rate {first.sampling_rate()}")
            if len({d.offset() for d in datas}) > 1:
                ctx.event("different offsets")
        if cls is not sumpf.Signal:
            ctx.check(got.resolution() == first.resolution(), lambda: f"{what}, expected the resolution {first.resolution()}")
        if len({d.shape()[-1] for d in datas}) > 1:
            ctx.event("different lengths")
    if len({len(d) for d in datas}) > 1:
        ctx.event("different channel counts")
    ctx.event(f"output:{cls.__name__}")
    ctx.event(mode.name)
    ctx.sign(cls.__name__, mode.name, len(datas), len({len(d) for d in datas}))


def creator(ctx, cls):
    r = ctx.rng

    def create():
        if cls is sumpf.Signal:
            s = gen.signal(ctx, length=r.choice((None, None, None, 0)), max_length=7)
            k = r.random()
            if k < 0.1:
                return sumpf.Signal(numpy.asarray(s.channels() * 4.0, dtype=int), sampling_rate=s.sampling_rate(), offset=s.offset(), labels=s.labels())
            if k < 0.2:
                return sumpf.Signal(s.channels().astype(numpy.float32), sampling_rate=s.sampling_rate(), offset=s.offset(), labels=s.labels())
            return s
        if cls is sumpf.Spectrum:
            s = gen.spectrum(ctx, max_length=7)
            if r.random() < 0.1:
                return sumpf.Spectrum(s.channels().real.copy(), resolution=s.resolution(), labels=s.labels())
            return s
        if cls is sumpf.Spectrogram:
            s = gen.spectrogram(ctx)
            if r.random() < 0.2:
                return sumpf.Spectrogram(s.channels().real.copy(), resolution=s.resolution(), sampling_rate=s.sampling_rate(), offset=s.offset(), labels=s.labels())
            return s
        g = ft.Trees(ctx)
        n = r.randint(1, 3)
        return sumpf.Filter([ft.build(g.tree(1)) for _ in range(n)], labels=gen.labels(ctx, n))
    return create


CLASSES = (sumpf.Signal, sumpf.Spectrum, sumpf.Spectrogram, sumpf.Filter)


def history(ctx):
    r = ctx.rng
    cls = r.choice(CLASSES)
    same = creator(ctx, cls)
    mixed = r.random() < 0.25

    def create():
        if mixed and r.random() < 0.15:
            return creator(ctx, r.choice(CLASSES))()
        return same()
    initial = [create() for _ in range(r.choice((0, 0, 1, 2, 3)))]
    if r.random() < 0.5:
        mode = r.choice(list(M))
        block = sumpf.Merge(iter(initial) if r.random() < 0.3 else initial, mode)
    else:
        mode = M.FIRST_DATASET_FIRST
        block = sumpf.Merge(initial)
    h = blocks.History(ctx, block, create, initial)
    failed = False
    for _ in range(r.randint(2, 14)):
        if r.random() < 0.15:
            mode = r.choice(list(M))
            got = block.set_mode(mode)
            ctx.check(got is block, lambda: f"set_mode() returned {got!r}")
            ctx.event("mode changed")
            h.log.append(mode.name)
        else:
            h.step()
        if r.random() < 0.55:
            datas = h.data()
            what = f"after {h.log}"
            if not datas:
                try:
                    got = block.output()
                except RuntimeError:
                    ctx.event("nothing to merge")
                else:
                    ctx.fail(f"{what}: merging nothing gives {got!r}")
            elif len({blocks.kind(d) for d in datas}) > 1:
                try:
                    got = block.output()
                except Exception:       # pylint: disable=broad-except; which error is raised, is not specified
                    ctx.event("mixed types rejected")
                    failed = True
                else:
                    ctx.fail(f"{what}: {blocks.describe(datas)} have been merged to {gen.describe(got)}")
            else:
                got = block.output()
                verify(ctx, what, got, datas, mode)
                if failed:
                    ctx.event("recovered after an error")
                    failed = False
                if r.random() < 0.2:
                    again = block.output()
                    ctx.check(again == got, lambda: f"{what}: reading the output twice gives different results")
                    ctx.event("repeated read")
    ctx.note(f"{cls.__name__}: {h.log}")
    ctx.sign("history", cls.__name__, tuple(h.log[-3:]))


def chain(ctx):
    """merges of merges and several blocks, that are connected to the same upstream block"""
    r = ctx.rng
    cls = r.choice(CLASSES)
    create = creator(ctx, cls)
    sources = [blocks.Source(create()) for _ in range(r.randint(2, 4))]
    a, b, c = sumpf.Merge(mode=r.choice(list(M))), sumpf.Merge(mode=r.choice(list(M))), sumpf.Merge()
    modes = [r.choice(list(M)) for _ in range(3)]
    for m, x in zip(modes, (a, b, c)):
        x.set_mode(m)
    for s in sources:
        a.add.connect(s.output)
    b.add.connect(sources[0].output)
    b.add.connect(sources[-1].output)
    c.add.connect(a.output)
    c.add.connect(b.output)
    log = []

    def check(which):
        va = [s.value for s in sources]
        vb = [sources[0].value, sources[-1].value]
        if which == "a":
            verify(ctx, f"chain after {log}", a.output(), va, modes[0])
        elif which == "b":
            verify(ctx, f"chain after {log}", b.output(), vb, modes[1])
        else:
            got = c.output()
            ma, mb = sumpf.Merge(va, modes[0]).output(), sumpf.Merge(vb, modes[1]).output()
            verify(ctx, f"chain after {log}", ma, va, modes[0])
            verify(ctx, f"chain after {log}", mb, vb, modes[1])
            verify(ctx, f"chain after {log}", got, [ma, mb], modes[2])
        ctx.event("chain")
    for _ in range(r.randint(2, 6)):
        k = r.choice(("change", "change", "mode", "read a", "read b"))
        log.append(k)
        if k == "change":
            r.choice(sources).set_value(create())
        elif k == "mode":
            i = r.randrange(3)
            modes[i] = r.choice(list(M))
            (a, b, c)[i].set_mode(modes[i])
        else:
            check(k[-1])
        if r.random() < 0.6:
            check("c")
    check("c")
    ctx.sign("chain", cls.__name__, tuple(log[-2:]))


def threads(ctx):
    """several threads read blocks, that merge the same data sets"""
    r = ctx.rng
    cls = r.choice(CLASSES)
    create = creator(ctx, cls)
    datas = [create() for _ in range(r.randint(2, 4))]
    plans = [([r.choice(datas) for _ in range(r.randint(2, 4))], r.choice(list(M))) for _ in range(4)]
    results = [None] * len(plans)
    barrier = threading.Barrier(len(plans))

    def run(i):
        d, m = plans[i]
        barrier.wait()
        try:
            block = sumpf.Merge(mode=m)
            ids = [block.add(x) for x in d]
            block.output()
            block.replace(ids[0], d[-1])
            block.output()
            block.replace(ids[0], d[0])
            results[i] = block.output()
        except Exception as e:      # pylint: disable=broad-except
            results[i] = e
    ts = [threading.Thread(target=run, args=(i,)) for i in range(len(plans))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for (d, m), got in zip(plans, results):
        if isinstance(got, Exception):
            raise got
        verify(ctx, "in several threads", got, d, m)
    ctx.sign("threads", cls.__name__)


SCENARIOS = [("history", history, 4000, 40000), ("chain", chain, 600, 6000), ("threads", threads, 150, 1500), ("large history", gen.big(history, 3000), 8, 80)]
