"""S23: loading depends only on the file, not on the history."""
import os
import shutil
import sys
import threading
import sumpf
from . import fork
from . import gen
from . import live
from . import persist as ps

PROPERTY = "S23"
RULE = ("files of all formats and types of data sets are written with fitting, wrong, upper-case and unknown endings; also empty, foreign and truncated files, directories and missing files; each file is loaded "
        "with each class in an own process, that has not loaded anything before; then histories of loads, saves and failures (also in simultaneous threads) are performed in one process and each result or error "
        "has to be the same as in the pristine process; files, that have been saved within a history, have to contain the same as those, that have been saved by a pristine process; what is loaded by the class, "
        "that saved it, has to be the data.  Distinct by type, format, ending, kind of the file and the previous step")
ASSUMPTIONS = ["documented errors of load() are ValueErrors", "a file, that contains another type of data, may be read or rejected, but always in the same way",
               "audio files, that are truncated, are read in the same way each time"]
REQUIRED = ["load equal to isolated load", "failure equal to isolated failure", "wrong ending read", "upper-case ending read", "unknown ending read", "fitting ending read", "load after failure", "load after wrong ending", "garbage rejected",
            "missing file", "directory", "truncated file", "loaded by another class", "threads", "saved in history", "saved automatically in history", "failed save", "file replaced by another format"]
CASE_TIMEOUT = 150
CLASSES = {"signal": sumpf.Signal, "spectrum": sumpf.Spectrum, "spectrogram": sumpf.Spectrogram, "filter": sumpf.Filter, "bands": sumpf.Bands}


def create(ctx, kind):
    r = ctx.rng
    if kind == "signal":
        n, c = r.randint(2, 40), r.choice((1, 1, 2, 3))
        return sumpf.Signal(channels=ctx.np.uniform(-0.9, 0.9, (c, n)), sampling_rate=r.choice((48000.0, 44100.0, 8000.0)), offset=r.choice((0, 0, 3, -2)), labels=gen.labels(ctx, c))
    if kind == "spectrum":
        return gen.spectrum(ctx, length=r.randint(2, 20))
    if kind == "filter":
        return r.choice((lambda: sumpf.ButterworthFilter(cutoff_frequency=r.uniform(10, 5000), order=r.randint(1, 4)), sumpf.AWeighting,
                         lambda: sumpf.Filter(transfer_functions=(sumpf.Filter.Constant(r.uniform(0.1, 3.0)),), labels=(gen.labels(ctx, 1)[0],)), lambda: live.make_bands(ctx)))()
    return live.MAKE[kind](ctx)


def load(cls, path):
    """the outcome of a load as something, that can be compared and sent to another process"""
    try:
        x = cls.load(path)
    except ValueError as e:
        return ("error", "ValueError" if "failed to read" in str(e) else f"ValueError {e}")
    except Exception as e:      # pylint: disable=broad-except
        return ("undocumented error", f"{type(e).__name__}: {e}")
    return ("data", live.digest(x), live.digest(unlabeled(x)), gen.describe(x))


def unlabeled(x):
    """the data without the labels, which can contain the name of the file"""
    if isinstance(x, sumpf.Filter):
        return repr(x.transfer_functions())
    return x.channels(), getattr(x, "sampling_rate", lambda: 0)(), getattr(x, "resolution", lambda: 0)(), getattr(x, "offset", lambda: 0)()


def save(x, path, fmt):
    try:
        x.save(path, fmt) if fmt is not None else x.save(path)      # pylint: disable=expression-not-assigned
    except Exception as e:      # pylint: disable=broad-except
        return type(e).__name__
    return None


class File:
    def __init__(self, path, kind, fmt, data, what):
        self.path, self.kind, self.fmt, self.data, self.what = path, kind, fmt, data, what
        self.expected = {}

    def __repr__(self):
        return f"{self.what} {os.path.basename(self.path)!r}"


def write_files(ctx, directory, count):
    """creates the files; this is executed in a process of its own"""
    r = ctx.rng
    files = []
    for i in range(count):
        what = r.choice(("fitting", "fitting", "wrong", "wrong", "wrong", "upper", "unknown", "garbage", "garbage", "missing", "directory", "truncated"))
        kind = r.choice(sorted(CLASSES))
        cls = CLASSES[kind]
        if kind == "filter":
            cls = sumpf.Filter
        stem = os.path.join(directory, f"{i}{ps.stem(ctx)}"[0:60])
        endings = ps.ENDINGS[cls]
        if what in ("missing", "directory", "garbage"):
            path = stem + r.choice(endings + ps.OTHER_ENDINGS)
            if what == "directory":
                os.mkdir(path)
            elif what == "garbage":
                data, kind_of = ps.garbage(ctx)
                what = f"garbage ({kind_of})"
                with open(path, "wb") as f:
                    f.write(data)
            files.append(File(path, kind, None, None, what))
            continue
        fmts = ps.formats(cls)
        fmt = r.choice(fmts)
        name = ps.name_of(cls, fmt)
        fits = [e for e in endings if ps.CONTAINERS.get(name) in ps.BY_ENDING.get(e, ())]
        if what in ("fitting", "truncated"):
            ending = r.choice(fits or endings)
        elif what == "wrong":
            every = sorted(set(sum((list(v) for v in ps.ENDINGS.values()), [])))
            ending = r.choice([e for e in every if e not in fits])
        elif what == "upper":
            ending = r.choice(fits or endings)
            ending = r.choice((ending.upper(), ending.title()))
        else:
            ending = r.choice(ps.OTHER_ENDINGS)
        x = create(ctx, kind)
        path = stem + ending
        if fork.isolated(save, x, path, fmt) is not None:
            continue
        if what == "truncated":
            n = os.path.getsize(path)
            os.truncate(path, r.randrange(n))
        f = File(path, kind, name, x, what)
        files.append(f)
    return files


def decoy_classes(ctx, kind):
    own = [kind]
    others = [k for k in CLASSES if k != kind]
    return own + ctx.rng.sample(others, ctx.rng.choice((0, 1, 1)))



def history(ctx):
    r = ctx.rng
    with ps.Directory() as d:
        files = write_files(ctx, d, r.randint(5, 9))
        for f in files:
            for k in decoy_classes(ctx, f.kind):
                f.expected[k] = fork.isolated(load, CLASSES[k], f.path)
            e = f.expected[f.kind]
            ctx.check(e[0] != "undocumented error", lambda f=f, e=e: f"loading {f} ({f.fmt}) raised {e[1]}")
            if f.what.startswith("garbage"):
                ctx.event("garbage rejected")
                ctx.check(e[0] == "error", lambda f=f, e=e: f"{f} has been loaded as {e[-1]}")
            elif f.what in ("missing", "directory"):
                ctx.event("missing file" if f.what == "missing" else "directory")
                ctx.check(e[0] == "error", lambda f=f, e=e: f"{f} has been loaded as {e[-1]}")
            elif f.what == "truncated":
                ctx.event("truncated file")
            elif e[0] == "data":
                ctx.event(f"{f.what}{'-case' if f.what == 'upper' else ''} ending read")
                reference = os.path.join(d, "reference")
                # the same content with the fitting name
                fitting = next((x for x in ps.ENDINGS[CLASSES[f.kind]] if ps.CONTAINERS.get(f.fmt) in ps.BY_ENDING.get(x, ())), None)
                if fitting is not None and not (f.fmt.startswith("AIFF") and "8" in f.fmt + f.fmt.replace("LAW", "8") and f.data.channels().size % 2):    # a known finding of S13
                    shutil.copyfile(f.path, reference + fitting)
                    e2 = fork.isolated(load, CLASSES[f.kind], reference + fitting)
                    ctx.check(e2[0] == e[0] and e2[2] == e[2], lambda f=f, e=e, e2=e2: f"{f} with the content {f.fmt} has been loaded as {e[-1]}, but as {e2[-1]}, when it is named *{fitting}")
            else:
                ctx.check(f.what != "fitting", lambda f=f: f"{f} with the content {f.fmt} has not been loaded")
        with fork.Companion() as companion:
            perform(ctx, companion, files, d)


def perform(ctx, companion, files, d):     # pylint: disable=too-many-locals,too-many-branches
    """a history of loads and saves in the companion process"""
    r = ctx.rng
    log = []
    last = None
    saved = 0
    for _ in range(r.randint(20, 40)):
        k = r.choice(("load", "load", "load", "load", "load", "save", "auto", "auto", "fail", "replace"))
        if k == "load":
            f = r.choice(files)
            kind = r.choice(sorted(f.expected))
            got = companion(load, CLASSES[kind], f.path)
            log.append(f"load {kind} {f}")
            ctx.check(got == f.expected[kind], lambda: f"loading a {kind} from {f} ({f.fmt}) gave {got[0]} {got[-1]} after the history {log[-8:]}, but {f.expected[kind][0]} {f.expected[kind][-1]} in a new process")
            ctx.event("load equal to isolated load" if got[0] == "data" else "failure equal to isolated failure")
            if last == "failure":
                ctx.event("load after failure")
            if last == "wrong":
                ctx.event("load after wrong ending")
            if kind != f.kind:
                ctx.event("loaded by another class")
            ctx.sign(kind, f.kind, f.fmt, os.path.splitext(f.path)[1], f.what, last)
            last = "failure" if got[0] != "data" else f.what
            continue
        kind = r.choice(sorted(CLASSES))
        cls = CLASSES[kind]
        x = create(ctx, kind)
        fmt, name = None, "AUTO"
        if k == "auto":
            ending = r.choice(ps.ENDINGS[cls])
        else:
            ending = r.choice(ps.ENDINGS[cls] + ps.OTHER_ENDINGS)
            fmt = r.choice(ps.formats(cls))
            name = ps.name_of(cls, fmt)
        path = os.path.join(d, f"s{saved}{ending}")
        saved += 1
        if k == "fail":
            path = os.path.join(d, "nonexistent", f"s{saved}{ending}")
        elif k == "replace":
            fs = [f for f in files if f.data is not None or f.what.startswith("garbage")]
            if not fs:
                continue
            f = r.choice(fs)
            path = f.path
        own = companion(save, x, path, fmt)
        ending = os.path.splitext(path)[1]
        log.append(f"{k} {kind} {name} {os.path.basename(path)!r}")
        other = os.path.join(d, f"i{saved}", os.path.basename(path))
        os.makedirs(os.path.dirname(other))
        if k == "fail":
            other = path
        e = fork.isolated(save, x, other, fmt)
        ctx.check(own == e, lambda: f"saving {live.describe(x)} as {name} in *{ending} {'failed with ' + own if own else 'succeeded'} after the history {log[-8:]}, but {'failed with ' + e if e else 'succeeded'} in a new process")
        last = k
        if own is not None:
            ctx.event("failed save")
            if k == "replace":
                f.expected = {kind: fork.isolated(load, cls, path)}
                f.kind, f.fmt, f.data, f.what = kind, name, None, "replaced"
            continue
        got, expected = fork.isolated(load, cls, path), fork.isolated(load, cls, other)
        ctx.check(got == expected, lambda: f"{live.describe(x)} has been saved as {name} in *{ending} after the history {log[-8:]}: loaded as {got[0]} {got[-1]}, but {expected[0]} {expected[-1]}, when saved by a new process")
        ctx.check(ps.container(path) == ps.container(other), lambda: f"{live.describe(x)} has been saved as {ps.container(path)} in *{ending} ({name}) after the history {log[-8:]}, but as {ps.container(other)} by a new process")
        ctx.event("saved automatically in history" if k == "auto" else "saved in history")
        if k == "replace":
            f.expected = {kind: got}
            f.kind, f.fmt, f.data, f.what = kind, name, x, "replaced"
            ctx.event("file replaced by another format")
        else:
            here = companion(load, cls, path)
            ctx.check(here == got, lambda: f"{live.describe(x)}, saved as {name} in *{ending}, is loaded as {here[0]} {here[-1]} by the process, that saved it (history {log[-8:]}), but as {got[0]} {got[-1]} by a new one")
            if r.random() < 0.3:
                new = File(path, kind, name, x, "saved")
                new.expected[kind] = got
                files.append(new)


def simultaneous(tasks):
    """executes the tasks in one thread each and returns their outcomes"""
    barrier = threading.Barrier(len(tasks))
    outcomes = [[] for _ in tasks]

    def work(i):
        barrier.wait()
        for t in tasks[i]:
            if t[0] == "load":
                outcomes[i].append(load(t[1], t[2]))
            else:
                outcomes[i].append(save(*t[1:]))

    before = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        workers = [threading.Thread(target=work, args=(i,)) for i in range(len(tasks))]
        for w in workers:
            w.start()
        for w in workers:
            w.join()
    finally:
        sys.setswitchinterval(before)
    return outcomes


def threads(ctx):
    """simultaneous loads and saves in threads of a process, that has not loaded or saved anything before"""
    r = ctx.rng
    with ps.Directory() as d:
        files = [f for f in write_files(ctx, d, r.randint(4, 7)) if f.what != "directory"]
        if not files:
            return
        for f in files:
            f.expected[f.kind] = fork.isolated(load, CLASSES[f.kind], f.path)
        tasks = []
        references = []
        favourite = r.choice((None, *files))
        n = r.randint(2, 5)
        for i in range(n):
            task = []
            for s in range(r.randint(2, 8)):
                if r.random() < 0.7:
                    f = favourite if favourite is not None and r.random() < 0.5 else r.choice(files)
                    task.append(("load", CLASSES[f.kind], f.path))
                    references.append((i, len(task) - 1, f, None))
                else:
                    kind = r.choice(sorted(CLASSES))
                    cls = CLASSES[kind]
                    x = create(ctx, kind)
                    fmt = r.choice([None] + ps.formats(cls))
                    path = os.path.join(d, f"t{i}-{s}{r.choice(ps.ENDINGS[cls])}")
                    task.append(("save", x, path, fmt))
                    references.append((i, len(task) - 1, x, (cls, path, fmt)))
            tasks.append(task)
        with fork.Companion() as companion:
            outcomes = companion(simultaneous, tasks)
        for i, s, f, target in references:
            got = outcomes[i][s]
            if target is None:
                ctx.check(got == f.expected[f.kind], lambda f=f, got=got: f"loading {f} ({f.fmt}) simultaneously with other threads gave {got[0]} {got[-1]} instead of {f.expected[f.kind][0]} {f.expected[f.kind][-1]}")
            else:
                cls, path, fmt = target
                os.makedirs(os.path.join(d, "other"), exist_ok=True)
                other = os.path.join(d, "other", os.path.basename(path))
                e = fork.isolated(save, f, other, fmt)
                what = f"saving {live.describe(f)} as {fmt} in *{os.path.splitext(path)[1]} simultaneously with other threads"
                ctx.check(got == e, lambda e=e, what=what, got=got: f"{what} resulted in {got}, but in {e} in a new process")
                if e is None:
                    a, b = fork.isolated(load, cls, path), fork.isolated(load, cls, other)
                    ctx.check(a == b and ps.container(path) == ps.container(other), lambda a=a, b=b, what=what: f"{what}: loaded as {a[0]} {a[-1]} instead of {b[0]} {b[-1]}")
        ctx.event("threads", n)
        ctx.sign("threads", n, tuple(sorted({f.kind for f in files})), favourite is not None)


THOROUGH = 1
QUICK = 1
WORKERS = {"quick": 4, "thorough": 8}
SCENARIOS = [("history", history, 200, 3000), ("threads", threads, 150, 2500)]
