"""S14: saved spectrums and spectrograms are restored."""
import csv
import json
import os
import pathlib
import pickle
import numpy
import sumpf
from . import gen
from . import persist as ps

PROPERTY = "S14"
RULE = ("random spectrums and spectrograms (complex and real samples including zeros, infinities and denormal numbers, empty ones, any labels) are saved in every format, with an explicit format and "
        "arbitrary file names or with the automatic choice, to new files and over existing ones, and (1) loaded again and compared bit-exactly to the original, (2) decoded by independent decoders; "
        "files by independent encoders are loaded; saves are interrupted by a full disk; truncated and foreign files are loaded.  Distinct by type, format, ending, shape class and operation")
ASSUMPTIONS = ["CSV and NPY files contain a frequency column, so that the resolution is restored up to the rounding of the frequencies and only if there are two samples; NPY files contain no labels; their channels are labelled with the file's name and the channel number",
               "a truncated CSV file is a shorter CSV file", "NPY files are not judged on a full disk, since NumPy does not report the write errors"]
REQUIRED = ["exact format restored", "table format restored", "automatic format", "explicit format with another ending", "existing file overwritten", "independently decoded", "independently encoded",
            "full disk reported", "truncated file rejected", "foreign file rejected", "unknown ending rejected", "unwritable path reported", "spectrum", "spectrogram", "empty data set", "infinite sample", "channels numbered", "table starts elsewhere"]
BUDGET = {"quick": 120, "thorough": 700}
TABLE = ("TEXT_CSV", "NUMPY_NPY")


def make(ctx, cls, name):
    r = ctx.rng
    kind = r.choice(("nice", "nice", "wide", "special", "int"))
    c = gen.count(ctx, 1, 1, 2, 3, 5)
    empty = r.random() < 0.06 and name not in TABLE
    if cls is sumpf.Spectrum:
        n = 0 if empty else r.choice((1, 2, 3, r.randint(1, 50), r.randint(1, 50))) if not getattr(ctx, "big", 0) else gen.extent(ctx, 50)
        shape = (c, n)
    else:
        shape = (c, 0 if empty and r.random() < 0.5 else gen.extent(ctx, 9, divide=40), gen.extent(ctx, 9, divide=40))
        if empty and shape[1]:
            shape = shape[0:2] + (0,)
    data = gen.cvalues(ctx, shape, kind) if r.random() < 0.85 else gen.values(ctx, shape, kind)
    if not empty and r.random() < 0.15 and name != "NUMPY_NPY":
        data = data.copy()
        data[tuple(r.randrange(n) for n in shape)] = r.choice((complex(numpy.inf, 1.0), complex(2.0, -numpy.inf), -numpy.inf)) if data.dtype.kind == "c" else numpy.inf
        ctx.event("infinite sample")
    if empty:
        ctx.event("empty data set")
    if cls is sumpf.Spectrum:
        return sumpf.Spectrum(channels=data, resolution=gen.rate(ctx), labels=gen.labels(ctx, c))
    return sumpf.Spectrogram(channels=data, resolution=gen.rate(ctx), sampling_rate=gen.rate(ctx), offset=gen.offset(ctx, r.choice((5, 1000))), labels=gen.labels(ctx, c))


def meta(x):
    return (x.resolution(), x.labels()) if isinstance(x, sumpf.Spectrum) else (x.resolution(), x.sampling_rate(), x.offset(), x.labels())


def numbered(ctx, s, path, what):
    """checks the labels of a data set from a file, that contains no labels: the name of the file and the number of the channel"""
    expected = tuple(f"{os.path.basename(path)} {i + 1}" for i in range(len(s)))
    ctx.check(s.labels() == expected, lambda: f"{what}: labels {s.labels()} instead of {expected}")
    ctx.event("channels numbered")


def judge(ctx, cls, name, a, b, what, path=None):
    ctx.check(isinstance(b, cls), lambda: f"{what}: loading did not return a {cls.__name__}, but {b!r}")
    empty_spectrogram = cls is sumpf.Spectrogram and name == "TEXT_JSON" and a.shape()[1] == 0      # the lists in the file do not contain the length
    ctx.check(b.shape() == a.shape() or empty_spectrogram and b.shape()[0:2] == a.shape()[0:2], lambda: f"{what}: loaded with the shape {b.shape()} instead of {a.shape()}")
    ctx.check(gen.exact(b.channels(), a.channels()) or 0 in a.shape(), lambda: f"{what}: samples differ, {gen.diff(b.channels(), a.channels())}")
    if name in TABLE:
        if a.length() > 1:
            noise = 4e-16 * a.length() / (a.length() - 1) + 4e-16
            ctx.check(abs(b.resolution() / a.resolution() - 1.0) <= noise, lambda: f"{what}: resolution {b.resolution()!r} instead of {a.resolution()!r}")
        if name == "TEXT_CSV":
            ctx.check(b.labels() == a.labels(), lambda: f"{what}: labels {b.labels()} instead of {a.labels()}")
        elif path is not None and a.length():
            numbered(ctx, b, path, what)
        ctx.event("table format restored")
    else:
        ctx.check(meta(a) == meta(b), lambda: f"{what}: loaded with {meta(b)} instead of {meta(a)}")
        ctx.check(a == b or empty_spectrogram, lambda: f"{what}: the loaded object is not equal to the original")
        ctx.event("exact format restored")
    ctx.event(cls.__name__.lower())


def decode(path, kind, cls):
    if kind == "json":
        with open(path) as f:
            d = json.load(f)
        c = numpy.array([numpy.array(x["real"], dtype=complex) for x in d["channels"]])
        c.imag = [x["imaginary"] for x in d["channels"]]
        return c, (d["resolution"], tuple(d["labels"])) if cls is sumpf.Spectrum else (d["resolution"], d["sampling_rate"], d["offset"], tuple(d["labels"]))
    if kind == "npz":
        with numpy.load(path) as d:
            labels = tuple(str(x) for x in d["labels"])
            return d["channels"], (float(d["resolution"]), labels) if cls is sumpf.Spectrum else (float(d["resolution"]), float(d["sampling_rate"]), int(d["offset"]), labels)
    if kind == "pickle":
        with open(path, "rb") as f:
            s = pickle.load(f)
        return s.channels(), meta(s)
    if kind == "npy":
        return numpy.load(path)[1:], None
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    return numpy.array([[complex(x) for x in row[1:]] for row in rows[1:]]).transpose(), None


def roundtrip(ctx):
    r = ctx.rng
    cls = r.choice((sumpf.Spectrum, sumpf.Spectrogram))
    automatic = r.random() < 0.3
    endings = ps.ENDINGS[cls]
    if automatic:
        ending = r.choice(endings)
        name = {".csv": "TEXT_CSV", ".json": "TEXT_JSON", ".js": "TEXT_JSON", ".npz": "NUMPY_NPZ", ".npy": "NUMPY_NPY", ".pickle": "PYTHON_PICKLE"}[ending]
        fmt = cls.file_formats.AUTO
    else:
        fmt = r.choice(ps.formats(cls))
        name = ps.name_of(cls, fmt)
        ending = r.choice(ps.ENDINGS[sumpf.Signal] + ps.OTHER_ENDINGS) if r.random() < 0.5 else r.choice([e for e in endings if ps.CONTAINERS[name] in ps.BY_ENDING[e]])
    a = make(ctx, cls, name)
    with ps.Directory() as d:
        path = os.path.join(d, ps.stem(ctx) + ending)
        p = pathlib.Path(path) if r.random() < 0.3 else path
        what = f"{gen.describe(a)} saved as {'AUTO' if automatic else name} in {os.path.basename(path)!r}"
        ctx.note(what)
        existing = r.random() < 0.4
        if existing:
            if r.random() < 0.5:
                with open(path, "wb") as f:
                    f.write(b"0.1,2,3\n" * r.randint(1, 3000))
            else:
                make(ctx, cls, name).pad(100).save(path, r.choice([x for x in ps.formats(cls)]))
        gen.warm(ctx, lambda: a.save(path + ".x", r.choice(list(ps.formats(cls)))), lambda: a.save(path + ".x", r.choice(list(ps.formats(cls)))), lambda: cls.load(path))
        got = a.save(p) if automatic and r.random() < 0.5 else a.save(p, fmt)
        ctx.check(got is a, lambda: f"{what}: save() returned {got!r}")
        ctx.check(ps.container(path) == ps.CONTAINERS[name], lambda: f"{what}: the file is a {ps.container(path)} file")
        judge(ctx, cls, name, a, cls.load(p), what, path)
        if automatic:
            ctx.event("automatic format")
        elif ending not in ps.BY_ENDING or ps.CONTAINERS[name] not in ps.BY_ENDING[ending]:
            ctx.event("explicit format with another ending")
        if existing:
            ctx.event("existing file overwritten")
            with ps.Directory() as d2:
                fresh = os.path.join(d2, os.path.basename(path))
                a.save(fresh, fmt)
                ctx.check(os.path.getsize(fresh) == os.path.getsize(path), lambda: f"{what} over an existing file has {os.path.getsize(path)} bytes instead of {os.path.getsize(fresh)}")
        if 0 not in a.shape():
            channels, info = decode(path, ps.CONTAINERS[name], cls)
            ctx.check(gen.exact(channels, a.channels()), lambda: f"{what}: the file contains other samples, {gen.diff(channels, a.channels())}")
            ctx.check(info is None or info == meta(a), lambda: f"{what}: the file contains {info} instead of {meta(a)}")
            ctx.event("independently decoded")
        ctx.sign("roundtrip", cls.__name__, name, ending, len(a), min(a.shape()[1:]), existing, automatic)


def encoded(ctx):
    r = ctx.rng
    cls = r.choice((sumpf.Spectrum, sumpf.Spectrogram))
    kind = r.choice(("json", "npz", "csv", "npy") if cls is sumpf.Spectrum else ("json", "npz"))
    a = make(ctx, cls, "TEXT_CSV")
    while not numpy.isfinite(a.channels()).all():
        a = make(ctx, cls, "TEXT_CSV")
    data, labels = a.channels(), a.labels()
    known = meta(a)
    with ps.Directory() as d:
        path = os.path.join(d, ps.stem(ctx) + r.choice(("." + kind, "." + kind, "", ".xyz", ".wav")))
        if kind == "json":
            obj = {"channels": [{"real": numpy.real(c).tolist(), "imaginary": numpy.imag(c).tolist()} for c in data], "resolution": a.resolution(), "labels": list(labels)}
            if cls is sumpf.Spectrogram:
                obj.update(sampling_rate=a.sampling_rate(), offset=a.offset())
            with open(path, "w") as f:
                json.dump(obj, f, indent=r.choice((None, 1)))
        elif kind == "npz":
            extra = {"sampling_rate": a.sampling_rate(), "offset": a.offset()} if cls is sumpf.Spectrogram else {}
            with open(path, "wb") as f:
                r.choice((numpy.savez, numpy.savez_compressed))(f, channels=data, resolution=a.resolution(), labels=labels, **extra)
        elif kind == "csv":
            known = None
            header = r.random() < 0.6
            order = list(range(a.length()))
            if r.random() < 0.3:
                r.shuffle(order)
            with open(path, "w", newline="") as f:
                w = csv.writer(f)
                if header:
                    w.writerow(("frequency" if r.random() < 0.5 else "f in Hz", *labels))
                for i in order:
                    w.writerow((repr(i * a.resolution()), *(repr(complex(v)) for v in data[:, i])))
        else:
            known = None
            with open(path, "wb") as f:
                numpy.save(f, numpy.vstack((numpy.arange(a.length()) * a.resolution() + 0j, data)))
        what = f"a {kind} file with {gen.describe(a)} named {os.path.basename(path)!r}"
        ctx.note(what)
        b = cls.load(path)
        ctx.check(gen.exact(b.channels(), data), lambda: f"{what}: {gen.diff(b.channels(), data)}")
        ctx.check(known is None or meta(b) == known, lambda: f"{what}: loaded with {meta(b)}")
        if known is None and a.length() > 1:
            ctx.check(abs(b.resolution() / a.resolution() - 1.0) < 1e-12, lambda: f"{what}: loaded with the resolution {b.resolution()}")
        if kind == "csv" and header:
            ctx.check(b.labels() == labels, lambda: f"{what}: loaded with the labels {b.labels()}")
        elif known is None:
            numbered(ctx, b, path, what)
        ctx.event("independently encoded")
        ctx.sign("encoded", cls.__name__, kind, os.path.splitext(path)[1], len(a))


def elsewhere(ctx):
    """tables, that do not start at 0 Hz: missing frequencies are filled with zeros, negative ones are cropped"""
    r = ctx.rng
    a = sumpf.Spectrum(channels=gen.cvalues(ctx, (r.choice((1, 2, 3)), r.randint(2, 20))), resolution=gen.rate(ctx), labels=gen.labels(ctx, 1))
    data, n = a.channels(), a.length()
    start = r.choice((0, 1, 2, r.randint(1, 30), -1, -r.randint(1, n - 1)))
    order = list(range(n))
    if r.random() < 0.4:
        r.shuffle(order)
    kind = r.choice(("csv", "npy"))
    labels = tuple(f"l{i}" for i in range(len(a)))
    with ps.Directory() as d:
        path = os.path.join(d, "x" + r.choice(("." + kind, "", ".wav")))
        f = [(start + i) * a.resolution() for i in order]
        if kind == "csv":
            with open(path, "w", newline="") as file:
                w = csv.writer(file)
                w.writerow(("frequency", *labels))
                for i, x in zip(order, f):
                    w.writerow((repr(x), *(repr(complex(v)) for v in data[:, i])))
        else:
            with open(path, "wb") as file:
                numpy.save(file, numpy.vstack((numpy.array(f) + 0j, data[:, order])))
        b = sumpf.Spectrum.load(path)
    expected = numpy.concatenate([numpy.zeros((len(a), max(start, 0)), dtype=complex), data[:, max(-start, 0):]], axis=1)
    what = f"a {kind} table with {n} rows, that starts at {start} * {a.resolution()} Hz"
    ctx.event("table starts elsewhere")
    ctx.check(b.shape() == expected.shape and gen.exact(b.channels(), expected), lambda: f"{what}: {gen.diff(b.channels(), expected)}")
    ctx.check(abs(b.resolution() / a.resolution() - 1.0) < 1e-11, lambda: f"{what}: resolution {b.resolution()}")
    ctx.check(kind == "npy" or b.labels() == labels, lambda: f"{what}: labels {b.labels()}")
    ctx.sign("elsewhere", kind, start > 0, start < 0, len(a), order == sorted(order))


def faults(ctx):
    r = ctx.rng
    cls = r.choice((sumpf.Spectrum, sumpf.Spectrogram))
    k = r.randrange(4)
    with ps.Directory() as d:
        fmt = r.choice([f for f in ps.formats(cls) if k != 0 or ps.name_of(cls, f) != "NUMPY_NPY"])
        name = ps.name_of(cls, fmt)
        a = make(ctx, cls, name)
        path = os.path.join(d, "x" + r.choice(ps.ENDINGS[cls] + ("", ".wav")))
        if k < 2:
            a.save(path, fmt)
            with open(path, "rb") as f:
                content = f.read()
            size = len(content)
        if k == 0:
            os.remove(path)
            limit = r.choice((0, size - 1, r.randrange(size), r.randrange(size)))
            what = f"saving {gen.describe(a)} as {name} ({size} bytes) on a disk with {limit} bytes"
            try:
                with ps.FullDisk(limit):
                    a.save(path, fmt)
            except Exception:       # pylint: disable=broad-except; the kind of error depends on the library
                ctx.event("full disk reported")
            else:
                ctx.fail(f"{what} has not raised an error")
            ctx.sign("full", name, limit == 0, limit == size - 1)
        elif k == 1:
            if name == "TEXT_CSV":
                return
            keep = r.choice((0, 1, 4, 12, size - 1, r.randrange(size), r.randrange(size)))
            with open(path, "wb") as f:
                f.write(content[0:min(keep, size - 1)])
            what = f"{gen.describe(a)} saved as {name} in {os.path.basename(path)!r} and truncated from {size} to {keep} bytes"
            rejected(ctx, cls, path, what, a)
            ctx.event("truncated file rejected")
            ctx.sign("truncated", cls.__name__, name, keep < 13, keep == size - 1)
        elif k == 2:
            content, kind = ps.garbage(ctx)
            path = os.path.join(d, ps.stem(ctx) + r.choice(ps.ENDINGS[sumpf.Signal] + ps.OTHER_ENDINGS))
            with open(path, "wb") as f:
                f.write(content)
            rejected(ctx, cls, path, f"a foreign file ({kind}: {content[0:40]!r}) named {os.path.basename(path)!r}")
            rejected(ctx, cls, path + "missing", "a missing file")
            ctx.event("foreign file rejected")
            ctx.sign("foreign", cls.__name__, kind, os.path.splitext(path)[1])
        else:
            if r.random() < 0.5:
                path = r.choice((d, os.path.join(d, "missing", "x.npz"), os.path.join(d, "x" * 300)))
                try:
                    a.save(path, fmt)
                except Exception:   # pylint: disable=broad-except; the kind of error depends on the library
                    ctx.event("unwritable path reported")
                else:
                    ctx.fail(f"saving {gen.describe(a)} as {fmt} at {path!r} has not raised an error")
            else:
                path = os.path.join(d, "x" + r.choice(("", ".foo", ".wav", ".txt", ".json2", ".npz.bak")))
                try:
                    a.save(path)
                except ValueError:
                    ctx.event("unknown ending rejected")
                else:
                    ctx.fail(f"saving to {os.path.basename(path)!r} has not raised an error")


def rejected(ctx, cls, path, what, allowed=None):
    try:
        got = cls.load(path)
    except ValueError:
        return
    except Exception as e:      # pylint: disable=broad-except
        ctx.fail(f"loading {what} as a {cls.__name__} has raised {type(e).__name__}: {e} instead of a ValueError")
    ctx.check(allowed is not None and got == allowed, lambda: f"{what} has been loaded as {gen.describe(got)}")


SCENARIOS = [("roundtrip", roundtrip, 2500, 20000), ("encoded", encoded, 600, 6000), ("elsewhere", elsewhere, 300, 3000), ("faults", faults, 1200, 10000),
             ("large roundtrip", gen.big(roundtrip, 5000), 8, 80)]
