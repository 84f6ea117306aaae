"""S02: operations never modify the objects they work on."""
import collections
import copy
import hashlib
import os
import random
import re
import sys
import threading
import time
import numpy
import sumpf
from . import gen, live

PROPERTY = "S02"
RULE = ("random histories of public operations on a pool of shared data sets and filters (results join the pool, so that views and shared memory are covered); the bytes of "
        "the samples and all meta data of every living object and of every argument are digested before and after each operation, and every operation is executed twice; in the "
        "concurrent scenario, several threads execute the same operations on the same objects with random delays injected at source lines of sumpf, and each result is compared to "
        "the serial one.  Distinct by operation and operand/argument classes; concurrent runs by the interleaving observed at the instrumented lines")
ASSUMPTIONS = ["writing into an array, that an accessor returned, is not an operation of the package and not part of the workload",
               "results of repeated executions may differ by rounding errors (1e-9)"]
REQUIRED = ["operation", "operation with result", "operand digest compared", "pool digest compared", "repetition compared", "concurrent result compared", "switch between threads observed", "saved and loaded", "operation on a twin", "result compared to unused objects", "object used repeatedly"]
CASE_TIMEOUT = 120


def classify(name):
    """the operation without numbers"""
    out = []
    for w in name.replace("(", " ").replace(",", " ").split():
        w = "".join(c for c in w if not c.isdigit() and c not in ".-+eE=")
        if w and w not in out:
            out.append(w)
    return " ".join(out)[:60]


def history(ctx):
    r = ctx.rng
    pool = live.Pool(ctx, 2)
    steps = []
    for _ in range(r.randint(8, 20)):
        op = r.choice(live.OPS) if r.random() < 0.93 else live.op_persist
        state = r.getstate()
        name, operands, call = op(ctx, pool.pick)
        before = [live.digest(o) for o in operands]
        result = live.execute(call)
        ctx.event("operation")
        after = [live.digest(o) for o in operands]
        ctx.event("operand digest compared", len(operands))
        for i, (x, y) in enumerate(zip(before, after)):
            ctx.check(x == y, lambda: f"operand {i} of '{name}' was modified; history: {steps[-6:]}")
        i = pool.changed()
        ctx.event("pool digest compared", len(pool.objects))
        ctx.check(i is None, lambda: f"'{name}' modified the object {live.describe(pool.objects[i])}, which is not one of its operands; history: {steps[-8:]}")
        digest = live.digest(result) if not isinstance(result, Exception) else None
        again = live.execute(call)
        ctx.event("repetition compared")
        ctx.check(live.same(result, again), lambda: f"repeating '{name}' has given a different result: {live.describe(again)} instead of {live.describe(result)}; history: {steps[-6:]}")
        if digest is not None:
            ctx.event("operation with result")
            ctx.check(live.digest(result) == digest, lambda: f"repeating '{name}' has modified the result of the first execution")
        i = pool.changed()
        ctx.check(i is None, lambda: f"the repetition of '{name}' modified the object {live.describe(pool.objects[i])}; history: {steps[-8:]}")
        if op is live.op_persist and not isinstance(result, Exception):
            ctx.event("saved and loaded")
        steps.append(name if not isinstance(result, Exception) else f"{name} raised {type(result).__name__}")
        ctx.sign(op.__name__, type(result).__name__, classify(name) if op in (live.op_unary, live.op_getters, live.op_shift, live.op_convolve) else tuple(type(o).__name__ for o in operands))
        for x in result if isinstance(result, tuple) else (result,):
            pool.add(x)
        if len(pool.objects) > 24:
            keep = sorted(r.sample(range(len(pool.objects)), 18))
            if all(any(live.kind_of(pool.objects[k]) == kind for k in keep) for kind in live.MAKE):
                pool.objects = [pool.objects[k] for k in keep]
                pool.digests = [pool.digests[k] for k in keep]
        del state
    for s in steps[:3]:
        ctx.note(s)


class Delays:
    """injects delays at the executed lines of sumpf and records, which thread has executed them"""

    def __init__(self, seed, density):
        self.prefix = os.path.dirname(os.path.abspath(sumpf.__file__)) + os.sep
        self.seed, self.density = seed, density
        self.order = collections.deque(maxlen=20000)

    def tracer(self, number):
        rng = random.Random(self.seed * 1000 + number)

        def local(frame, event, _arg):
            if event == "line":
                self.order.append(number)
                if rng.random() < self.density:
                    time.sleep(rng.choice((0.0, 0.0, 1e-5)))
            return local

        def start(frame, _event, _arg):
            return local if frame.f_code.co_filename.startswith(self.prefix) else None
        return start


TWINNED = tuple(dict.fromkeys(live.OPS + (live.op_persist,)))


def twin(x, factor):
    """another object with the same metadata"""
    with numpy.errstate(all="ignore"):
        if type(x) is sumpf.Signal:
            return sumpf.Signal(channels=x.channels() * factor, sampling_rate=x.sampling_rate(), offset=x.offset(), labels=x.labels())
        if type(x) is sumpf.Spectrum:
            return sumpf.Spectrum(channels=x.channels() * factor, resolution=x.resolution(), labels=x.labels())
        if type(x) is sumpf.Spectrogram:
            return sumpf.Spectrogram(channels=x.channels() * factor, resolution=x.resolution(), sampling_rate=x.sampling_rate(), offset=x.offset(), labels=x.labels())
        if isinstance(x, sumpf.Filter):
            return x * factor
    return x


def concurrent(ctx):
    r = ctx.rng
    pool = live.Pool(ctx, 1)
    work = []

    def add(op, pick):
        name, operands, call = op(ctx, pick)
        expected = live.execute(call)
        work.append((name, call, expected, operands, [live.digest(o) for o in operands]))
    if r.random() < 0.4:
        kind = r.choice((None, None, live.op_filter_call, live.op_stft, live.op_apply_filter, live.op_binary, live.op_persist, live.op_block, live.op_getters))
        for _ in range(r.randint(4, 8)):
            add(kind if kind is not None and r.random() < 0.7 else r.choice(live.OPS), pool.pick)
    else:       # few operations, each with the same parameters on several objects of the same size
        for _ in range(r.choice((1, 1, 2, 3))):
            op = r.choice(TWINNED)
            state = r.getstate()
            add(op, pool.pick)
            for factor in r.sample((-1.0, 0.5, 2.0, 3.0), r.choice((1, 2, 3))):
                then = r.getstate()
                r.setstate(state)
                add(op, lambda *a, f=factor, **k: twin(pool.pick(*a, **k), f))
                r.setstate(then)
                ctx.event("operation on a twin")
    threads_count = r.choice((2, 3, 4))
    delays = Delays(r.randrange(10 ** 6), r.choice((0.02, 0.1, 0.3)))
    orders = [r.sample(range(len(work)), len(work)) * 2 for _ in range(threads_count)]
    barrier = threading.Barrier(threads_count)
    results = [[] for _ in range(threads_count)]

    def run(number):
        barrier.wait(30)
        sys.settrace(delays.tracer(number))
        try:
            for i in orders[number]:
                results[number].append((i, live.execute(work[i][1])))
        finally:
            sys.settrace(None)
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    threads = [threading.Thread(target=run, args=(n,), daemon=True) for n in range(threads_count)]
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(100)
    finally:
        sys.setswitchinterval(interval)
    ctx.check(not any(t.is_alive() for t in threads), lambda: f"concurrent operations did not end: {[w[0] for w in work]}")
    order = list(delays.order)
    switches = sum(1 for a, b in zip(order, order[1:]) if a != b)
    ctx.event("switch between threads observed", switches)
    for number, result in enumerate(results):
        ctx.check(len(result) == 2 * len(work), lambda: f"a thread ended early after {len(result)} operations")
        for i, x in result:
            ctx.event("concurrent result compared")
            ctx.check(live.same(work[i][2], x), lambda: f"'{work[i][0]}' has given {live.describe(x)} {x if isinstance(x, Exception) else ''} while other threads were working on the same objects, alone it has given {live.describe(work[i][2])}; other operations: {[w[0] for w in work]}")
    for name, call, expected, operands, before in work:
        for i, (o, d) in enumerate(zip(operands, before)):
            ctx.check(live.digest(o) == d, lambda: f"operand {i} of '{name}' was modified by concurrent operations {[w[0] for w in work]}")
    i = pool.changed()
    ctx.check(i is None, lambda: f"the object {live.describe(pool.objects[i])} was modified by concurrent operations {[w[0] for w in work]}")
    ctx.note(f"{threads_count} threads, {len(work)} operations, {switches} observed switches")
    ctx.sign("concurrent", threads_count, hashlib.sha1(repr(order).encode()).hexdigest()[:10])


def reuse(ctx):
    """the results must not depend on what has been done with the same objects before"""
    r = ctx.rng
    objects = {kind: make(ctx) for kind, make in live.REUSED.items()}
    second = {kind: make(ctx) for kind, make in live.MAKE.items() if r.random() < 0.4}
    pristine, pristine_second = copy.deepcopy(objects), copy.deepcopy(second)
    objects["buffer"] = numpy.zeros(8)
    pristine["buffer"] = numpy.zeros(8)
    ops = r.sample(live.REUSE_OPS, r.choice((1, 1, 2, 4)))
    steps = []

    def pick(kind):
        if kind in second and r.random() < 0.4:
            return second[kind]
        return objects[kind]

    def pick_fresh(kind):       # has to consume the same random numbers as ``pick``
        if kind in pristine_second and r.random() < 0.4:
            return copy.deepcopy(pristine_second[kind])
        return copy.deepcopy(pristine[kind])
    for _ in range(r.randint(5, 14)):
        op = r.choice(ops)
        state, np_state = r.getstate(), ctx.np.bit_generator.state
        name, _, call = op(ctx, pick)
        result = live.execute(call)
        r.setstate(state)
        ctx.np.bit_generator.state = np_state
        fresh_name, _, fresh_call = op(ctx, pick_fresh)
        fresh = live.execute(fresh_call)
        if isinstance(result, str) and isinstance(fresh, str):
            result, fresh = (re.sub("0x[0-9a-f]+", "0x", x) for x in (result, fresh))     # the address in the text is that of the object
        ctx.event("result compared to unused objects")
        ctx.check(live.same(fresh, result), lambda: f"'{name}' has given {live.describe(result)} {result if isinstance(result, Exception) else ''} for objects, that have been used before, and {live.describe(fresh)} {fresh if isinstance(fresh, Exception) else ''} for new objects with the same content ({fresh_name}); history: {steps[-8:]}")
        if steps and not isinstance(result, Exception):
            ctx.event("object used repeatedly")
        steps.append(name)
        ctx.sign("reuse", op.__name__, type(result).__name__, classify(name)[:40])
    ctx.note(steps[-1])


THOROUGH = 2
QUICK = 2
SCENARIOS = [("history", history, 1500, 20000), ("concurrent", concurrent, 150, 2000), ("reuse", reuse, 1500, 20000), ("large history", gen.big(history, 5000), 8, 80)]
