"""S13: saved signals are restored."""
import aifc
import csv
import json
import os
import pathlib
import pickle
import struct
import wave
import numpy
import sumpf
from . import gen
from . import persist as ps

PROPERTY = "S13"
RULE = ("random signals (channel counts, lengths around the blocks of the writers, offsets, labels with any characters, sampling rates) are saved in every format, with an explicit "
        "format and arbitrary file names or with the automatic choice, to new files and over existing ones, and (1) loaded again and compared to the original (bit-exactly or within the "
        "quantization step of the format), (2) decoded by independent decoders (struct/wave/aifc/soundfile/json/numpy/csv/pickle) and compared as well; files that were written by "
        "independent encoders are loaded; saves are interrupted by a full disk at a random position; truncated and foreign files are loaded.  Distinct by format, ending, channel count, "
        "length class, operation and kind of damage")
ASSUMPTIONS = ["CSV and NPY files contain a time column, so that the sampling rate is restored up to the rounding of the time values and only if there are two samples; NPY and audio files contain no labels; their channels are labelled with the file's name and the channel number",
               "audio formats store the sampling rate as an integer (within the range of the format) and no offset; samples beyond +-1.0 are not stored by the integer formats",
               "OGG VORBIS is lossy: shape, sampling rate, channel order and approximate samples are judged, for smooth signals",
               "a truncated CSV file is a shorter CSV file, a truncated audio file may be read as the signal's first samples",
               "NPY, FLAC and OGG files are not judged on a full disk, since NumPy and libsndfile do not report the write errors"]
REQUIRED = ["exact format restored", "table format restored", "audio format restored", "lossy format restored", "automatic format", "explicit format with another ending", "existing file overwritten",
            "channels numbered", "independently decoded", "independently encoded", "full disk reported", "truncated file rejected", "foreign file rejected", "missing file rejected", "unwritable path reported", "unknown ending rejected"]
BUDGET = {"quick": 120, "thorough": 700}

LENGTHS = (1, 2, 3, 7, 20, 100, 2047, 2048, 2049, 4095, 4096, 4097, 5000)
RATES = (48000.0, 44100.0, 8000.0, 1.0, 96000.0, 12345.0, 65535.0, 48000)
EXACT = ("TEXT_JSON", "NUMPY_NPZ", "PYTHON_PICKLE")
TABLE = ("TEXT_CSV", "NUMPY_NPY")


def length(ctx):
    r = ctx.rng
    if getattr(ctx, "big", 0):
        return gen.extent(ctx, 60)
    return r.choice(LENGTHS) if r.random() < 0.4 else r.randint(1, 60)


def samples(ctx, c, n, audio):
    r = ctx.rng
    if not audio:
        return gen.values(ctx, (c, n), r.choice(("nice", "nice", "wide", "special", "int")))
    a = ctx.np.uniform(-1.0, 1.0, (c, n)) * r.choice((1.0, 1.0, 0.1, 0.001))
    if r.random() < 0.5:
        m = ctx.np.random((c, n)) < 0.2
        a[m] = ctx.np.choice(numpy.array((1.0, -1.0, 0.0, 0.5, -0.5, 1.0 - 2.0 ** -16, 2.0 ** -15)), int(m.sum()))
    return a


def make(ctx, name):
    r = ctx.rng
    audio = name not in EXACT + TABLE
    c = r.choice((1, 1, 2, 3, 4, 8) if "FLAC" in name else (1, 1, 2, 3, 4, 9) if not getattr(ctx, "big", 0) else (1, 2, 5, 16, 33))
    n = length(ctx)
    if name == "OGG_VORBIS":
        c, n, rate = r.choice((1, 2, 3)), r.choice((3000, 4096, 5001)), r.choice((8000.0, 44100.0, 48000.0))
        t = numpy.arange(n) / rate
        data = numpy.array([0.2 * (i + 1) * numpy.sin(2.0 * numpy.pi * r.uniform(0.01, 0.03) * (i + 1) * rate * t + i) for i in range(c)])
    else:
        rate = r.choice(RATES) if audio else gen.rate(ctx)
        data = samples(ctx, c, n, audio)
    if name == "TEXT_JSON" and r.random() < 0.05:
        n = 0
        data = numpy.empty((c, 0))
    return sumpf.Signal(channels=data, sampling_rate=rate, offset=gen.offset(ctx, r.choice((5, 1000))), labels=gen.labels(ctx, c))


def judge(ctx, name, a, b, path, what):
    """compares the loaded signal b to the saved signal a"""
    ctx.check(isinstance(b, sumpf.Signal), lambda: f"{what}: loading did not return a signal, but {b!r}")
    if odd_bytes(name, a.channels()) and b.shape() == (1, a.length() + 1):
        audio(ctx, name, a.channels(), b.channels()[:, 0:-1], what)
        ctx.fail(f"{what}: the loaded signal has an additional sample", key="aiff-odd-bytes")
        return
    ctx.check(b.shape() == a.shape(), lambda: f"{what}: the loaded signal has the shape {b.shape()} instead of {a.shape()}")
    if name in EXACT:
        ctx.check(gen.exact(b.channels(), a.channels()), lambda: f"{what}: samples differ, {gen.diff(b.channels(), a.channels())}")
        ctx.check(b.sampling_rate() == a.sampling_rate() and b.offset() == a.offset() and b.labels() == a.labels() and b == a,
                  lambda: f"{what}: loaded {gen.describe(b)} instead of {gen.describe(a)}")
        ctx.event("exact format restored")
    elif name in TABLE:
        ctx.check(gen.exact(b.channels(), a.channels()), lambda: f"{what}: samples differ, {gen.diff(b.channels(), a.channels())}")
        if a.length() > 1:
            noise = 4e-16 * (abs(a.offset()) + a.length()) / (a.length() - 1)
            ctx.check(abs(b.sampling_rate() / a.sampling_rate() - 1.0) <= noise, lambda: f"{what}: sampling rate {b.sampling_rate()!r} instead of {a.sampling_rate()!r}")
            ctx.check(b.offset() == a.offset(), lambda: f"{what}: offset {b.offset()} instead of {a.offset()}")
        if name == "TEXT_CSV":
            ctx.check(b.labels() == a.labels(), lambda: f"{what}: labels {b.labels()} instead of {a.labels()}")
        elif a.length():
            numbered(ctx, b, path, what)
        ctx.event("table format restored")
    else:
        ctx.check(b.sampling_rate() == a.sampling_rate(), lambda: f"{what}: sampling rate {b.sampling_rate()!r} instead of {a.sampling_rate()!r}")
        ctx.check(b.offset() == 0, lambda: f"{what}: offset {b.offset()}")
        numbered(ctx, b, path, what)
        audio(ctx, name, a.channels(), b.channels(), what)
        ctx.event("lossy format restored" if name == "OGG_VORBIS" else "audio format restored")


def numbered(ctx, s, path, what):
    """checks the labels of a data set from a file, that contains no labels: the name of the file and the number of the channel"""
    expected = tuple(f"{os.path.basename(path)} {i + 1}" for i in range(len(s)))
    ctx.check(s.labels() == expected, lambda: f"{what}: labels {s.labels()} instead of {expected}")
    ctx.event("channels numbered")


def odd_bytes(name, channels):
    return name in ("AIFF_UINT8", "AIFF_INT8", "AIFF_ULAW", "AIFF_ALAW") and len(channels) == 1 and channels.shape[1] % 2 == 1


def audio(ctx, name, a, b, what):
    tol = ps.tolerance(name, a)
    if tol is None:
        for i, (x, y) in enumerate(zip(a, b)):
            m = slice(500, -500)
            e = numpy.sqrt(numpy.mean((x[m] - y[m]) ** 2)) / numpy.sqrt(numpy.mean(x[m] ** 2))
            ctx.check(e < 0.25, lambda: f"{what}: channel {i} deviates by {e} from the original")
    else:
        bad = ~(numpy.abs(b - a) <= tol)
        ctx.check(not bad.any(), lambda: f"{what}: {int(bad.sum())} samples deviate by more than the quantization step, {gen.diff(b, a)}")


def decode(path, kind):
    """the samples and the sampling rate of a file, as (channels, rate), read without SuMPF"""
    if kind == "json":
        with open(path) as f:
            d = json.load(f)
        return numpy.array(d["channels"], dtype=float), d["sampling_rate"], d["offset"], tuple(d["labels"])
    if kind == "npz":
        with numpy.load(path) as d:
            return d["channels"], float(d["sampling_rate"]), int(d["offset"]), tuple(str(x) for x in d["labels"])
    if kind == "pickle":
        with open(path, "rb") as f:
            s = pickle.load(f)
        return s.channels(), s.sampling_rate(), s.offset(), s.labels()
    if kind == "npy":
        d = numpy.load(path)
        return d[1:], None, None, None
    if kind == "csv":
        with open(path, newline="") as f:
            rows = list(csv.reader(f))
        return numpy.array([[float(x) for x in row[1:]] for row in rows[1:]]).transpose(), None, None, tuple(rows[0][1:])
    import soundfile
    data, rate = soundfile.read(path, always_2d=True)
    return data.transpose(), float(rate), None, None


def roundtrip(ctx):
    r = ctx.rng
    fmt = r.choice(ps.formats(sumpf.Signal))
    name = ps.name_of(sumpf.Signal, fmt)
    a = make(ctx, name)
    ending = r.choice(ps.ENDINGS[sumpf.Signal] + ps.OTHER_ENDINGS) if r.random() < 0.5 else r.choice([e for e in ps.ENDINGS[sumpf.Signal] if ps.CONTAINERS[name] in ps.BY_ENDING[e]])
    with ps.Directory() as d:
        path = os.path.join(d, ps.stem(ctx) + ending)
        if ending and ending in ps.BY_ENDING and ps.CONTAINERS[name] not in ps.BY_ENDING[ending]:
            ctx.event("explicit format with another ending")
        p = pathlib.Path(path) if r.random() < 0.3 else path
        what = f"{gen.describe(a)} saved as {name} in {os.path.basename(path)!r}"
        ctx.note(what)
        existing = r.choice((None, None, "text", "same", "longer"))
        if existing == "text":
            with open(path, "wb") as f:
                f.write(b"0.1,2,3\n" * r.randint(1, 30000))
        elif existing is not None:
            other = sumpf.Signal(channels=numpy.full((2, a.length() * 2 + 5 if existing == "longer" else a.length()), 0.25), sampling_rate=a.sampling_rate(), labels=("old", "old"))
            try:
                other.save(path, fmt if r.random() < 0.5 else sumpf.Signal.file_formats.NUMPY_NPZ)
            except Exception:       # pylint: disable=broad-except; e.g. too many channels
                existing = None
        gen.warm(ctx, lambda: a.save(path + ".x", sumpf.Signal.file_formats.NUMPY_NPZ), lambda: a.save(path + ".x", sumpf.Signal.file_formats.TEXT_JSON), lambda: a.save(path + ".x", sumpf.Signal.file_formats.TEXT_CSV), lambda: a.save(path + ".x", sumpf.Signal.file_formats.NUMPY_NPY), lambda: sumpf.Signal.load(path), probability=0.2)
        got = a.save(p, fmt)
        ctx.check(got is a, lambda: f"{what}: save() returned {got!r}")
        ctx.check(ps.container(path) == ps.CONTAINERS[name] or a.length() == 0, lambda: f"{what}: the file is a {ps.container(path)} file")
        if ps.CONTAINERS[name] in ("wav", "aiff", "flac", "ogg"):
            import soundfile
            info = soundfile.info(path)
            sub = ps.SUBTYPES[name.split("_")[-1]]
            ctx.check(info.subtype == sub, lambda: f"{what}: the file has the sample format {info.subtype} instead of {sub}")
        judge(ctx, name, a, sumpf.Signal.load(p), path, what)
        if existing:
            ctx.event("existing file overwritten")
            size = os.path.getsize(path)
            with ps.Directory() as d2:
                fresh = os.path.join(d2, os.path.basename(path))
                a.save(fresh, fmt)
                ctx.check(os.path.getsize(fresh) == size or name == "OGG_VORBIS", lambda: f"{what} over an existing file has {size} bytes instead of {os.path.getsize(fresh)}")
        if a.length():
            channels, rate, offset, labels = decode(path, ps.CONTAINERS[name])
            if odd_bytes(name, a.channels()) and channels.shape == (1, a.length() + 1):     # libsndfile reads the padding byte
                channels = channels[:, 0:-1]
            ctx.check(channels.shape == a.shape(), lambda: f"{what}: the file contains samples of shape {channels.shape}")
            if name in EXACT + TABLE:
                ctx.check(gen.exact(channels, a.channels()), lambda: f"{what}: the file contains other samples, {gen.diff(channels, a.channels())}")
            else:
                audio(ctx, name, a.channels(), channels, f"{what}, decoded")
            ctx.check(rate is None or rate == a.sampling_rate(), lambda: f"{what}: the file contains the sampling rate {rate}")
            ctx.check(offset is None or offset == a.offset(), lambda: f"{what}: the file contains the offset {offset}")
            ctx.check(labels is None or labels == a.labels(), lambda: f"{what}: the file contains the labels {labels}")
            ctx.event("independently decoded")
        ctx.sign("roundtrip", name, ending, len(a), a.length() if a.length() in LENGTHS else 0, existing)


def automatic(ctx):
    r = ctx.rng
    ending = r.choice(ps.ENDINGS[sumpf.Signal])
    name = {".csv": "TEXT_CSV", ".json": "TEXT_JSON", ".js": "TEXT_JSON", ".npz": "NUMPY_NPZ", ".npy": "NUMPY_NPY", ".pickle": "PYTHON_PICKLE", ".flac": "FLAC_INT24", ".ogg": "OGG_VORBIS",
            ".oga": "OGG_VORBIS"}.get(ending, "X_FLOAT32")
    a = make(ctx, name)
    with ps.Directory() as d:
        path = os.path.join(d, ps.stem(ctx) + ending)
        p = pathlib.Path(path) if r.random() < 0.3 else path
        what = f"{gen.describe(a)} saved in {os.path.basename(path)!r}"
        ctx.note(what)
        if r.random() < 0.3:
            with open(path, "wb") as f:
                f.write(bytes(1000))
        if r.random() < 0.5:
            a.save(p)
        else:
            a.save(p, sumpf.Signal.file_formats.AUTO)
        ctx.check(ps.container(path) in ps.BY_ENDING[ending], lambda: f"{what}: the file is a {ps.container(path)} file")
        judge(ctx, name, a, sumpf.Signal.load(p), path, what)
        ctx.event("automatic format")
        ctx.sign("automatic", ending, len(a), a.length() if a.length() in LENGTHS else 0)


def encoded(ctx):
    """files, that have been written by other programs"""
    r = ctx.rng
    kind = r.choice(("wave", "aifc", "soundfile", "soundfile", "csv", "json", "npz", "npy"))
    c, n = r.choice((1, 2, 3, 5)), length(ctx)
    rate = float(r.choice(RATES))
    data = samples(ctx, c, n, kind in ("wave", "aifc", "soundfile")) * 0.999
    offset, labels = r.randint(-9, 9), gen.labels(ctx, c)
    name, known_labels, known_offset = "X_FLOAT64", None, None
    with ps.Directory() as d:
        ending = ""
        if kind in ("wave", "aifc"):
            width = r.choice((1, 2, 3, 4))
            name = f"X_INT{8 * width}"
            step = 2 ** (8 * width - 1)
            ints = numpy.clip(numpy.round(data * step), -step, step - 1).astype(numpy.int64).transpose()
            if kind == "wave":
                raw = b"".join(int(v).to_bytes(width, "little", signed=True) if width > 1 else bytes((int(v) + 128,)) for v in ints.flatten())
            else:
                raw = b"".join(int(v).to_bytes(width, "big", signed=True) for v in ints.flatten())
            ending = r.choice((".wav", ".aiff", "", ".bin") if kind == "wave" else (".aiff", ".aif", ".aifc", "", ".wav"))
            path = os.path.join(d, ps.stem(ctx) + ending)
            with (wave if kind == "wave" else aifc).open(path, "wb") as f:
                f.setnchannels(c)
                f.setsampwidth(width)
                f.setframerate(int(rate))
                f.writeframes(raw)
            data = (ints.transpose()) / step
            name = "X_FLOAT64"      # the integers have to be restored exactly
        elif kind == "soundfile":
            import soundfile
            container, sub = r.choice((("WAV", "FLOAT"), ("WAV", "DOUBLE"), ("WAV", "PCM_24"), ("WAV", "ULAW"), ("WAV", "ALAW"), ("AIFF", "FLOAT"), ("AIFF", "ULAW"), ("AIFF", "ALAW"), ("AIFF", "PCM_U8"), ("FLAC", "PCM_16"),
                                       ("FLAC", "PCM_24"), ("WAV", "PCM_16"), ("WAV", "PCM_U8"), ("AIFF", "PCM_16"), ("AIFF", "PCM_S8"), ("CAF", "PCM_16"), ("AU", "FLOAT"), ("W64", "DOUBLE")))
            ending = r.choice((".wav", ".aiff", ".flac", "", ".caf", ".WAV"))
            path = os.path.join(d, ps.stem(ctx) + ending)
            soundfile.write(path, data.transpose(), int(rate), subtype=sub, format=container)
            data = soundfile.read(path, always_2d=True)[0].transpose()
            kind = f"soundfile {container} {sub}"
            if sub in ("ULAW", "ALAW"):
                name = "X_INT16"
        else:
            path = os.path.join(d, ps.stem(ctx) + r.choice(("." + kind, "." + kind, "", ".xyz")))
            if kind == "csv":
                known_labels = labels if r.random() < 0.6 else ("",) * c
                order = list(range(n))
                if r.random() < 0.3:
                    r.shuffle(order)
                with open(path, "w", newline="") as f:
                    w = csv.writer(f, lineterminator=r.choice(("\n", "\r\n")))
                    if known_labels is labels:
                        w.writerow(("time", *labels) if r.random() < 0.5 else ("Zeit [s]", *labels))
                    for i in order:
                        w.writerow((repr((i + offset) / rate), *(repr(float(v)) for v in data[:, i])))
                known_offset = offset
            elif kind == "json":
                obj = {"channels": data.tolist(), "sampling_rate": rate, "offset": offset, "labels": list(labels)}
                known_labels, known_offset = labels, offset
                if r.random() < 0.3:
                    del obj["labels"]
                    known_labels = ("",) * c
                if r.random() < 0.3:
                    del obj["offset"]
                    known_offset = 0
                with open(path, "w") as f:
                    json.dump(obj, f, indent=r.choice((None, 2)))
            elif kind == "npz":
                with open(path, "wb") as f:
                    r.choice((numpy.savez, numpy.savez_compressed))(f, channels=data, sampling_rate=rate, offset=offset, labels=labels)
                known_labels, known_offset = labels, offset
            else:
                with open(path, "wb") as f:
                    numpy.save(f, numpy.vstack(((numpy.arange(n) + offset) / rate, data)))
                known_offset = offset
        what = f"a {kind} file ({c} channels, {n} samples, sampling rate {rate}) named {os.path.basename(path)!r}"
        ctx.note(what)
        s = sumpf.Signal.load(path)
        if kind == "aifc" and width == 1 and odd_bytes("AIFF_INT8", data) and ending == ".wav" and s.shape() == (1, n + 1):     # this is read by libsndfile
            audio(ctx, name, data, s.channels()[:, 0:-1], what)
            ctx.fail(f"{what}: loaded with an additional sample", key="aiff-odd-bytes")
            return
        ctx.check(s.shape() == data.shape, lambda: f"{what}: loaded with the shape {s.shape()}")
        if name == "X_INT16":
            audio(ctx, name, data, s.channels(), what)
        else:
            ctx.check(gen.exact(s.channels(), data), lambda: f"{what}: {gen.diff(s.channels(), data)}")
        if n > 1 or kind not in ("csv", "npy"):
            ctx.check(abs(s.sampling_rate() / rate - 1.0) < (1e-12 if kind in ("csv", "npy") else 1e-300), lambda: f"{what}: sampling rate {s.sampling_rate()!r}")
            ctx.check(known_offset is None or s.offset() == known_offset, lambda: f"{what}: offset {s.offset()} instead of {known_offset}")
        if known_labels is None:
            numbered(ctx, s, path, what)
        ctx.check(known_labels is None or s.labels() == tuple(known_labels), lambda: f"{what}: labels {s.labels()} instead of {known_labels}")
        ctx.event("independently encoded")
        ctx.sign("encoded", kind, ending, c)


def faults(ctx):
    r = ctx.rng
    k = r.randrange(5)
    with ps.Directory() as d:
        if k == 0:      # full disk
            fmt = r.choice([f for f in ps.formats(sumpf.Signal) if not ps.name_of(sumpf.Signal, f).startswith(("FLAC", "OGG", "NUMPY_NPY"))])
            name = ps.name_of(sumpf.Signal, fmt)
            a = make(ctx, name)
            path = os.path.join(d, "x")
            a.save(path, fmt)
            size = os.path.getsize(path)
            os.remove(path)
            limit = r.choice((0, 1, size - 1, r.randrange(size), r.randrange(size)))
            what = f"saving {gen.describe(a)} as {name} ({size} bytes) on a disk with {limit} bytes"
            ctx.note(what)
            try:
                with ps.FullDisk(limit):
                    a.save(path, fmt)
            except Exception:       # pylint: disable=broad-except; the kind of error depends on the library
                ctx.event("full disk reported")
            else:
                try:
                    judge(ctx, name, a, sumpf.Signal.load(path), path, what)
                except ValueError as e:
                    ctx.fail(f"{what} has not raised an error, but the file cannot be loaded ({e})")
            ctx.sign("full", name, limit == 0, limit == size - 1)
        elif k == 1:    # truncated files
            fmt = r.choice([f for f in ps.formats(sumpf.Signal) if ps.name_of(sumpf.Signal, f) != "TEXT_CSV"])
            name = ps.name_of(sumpf.Signal, fmt)
            a = make(ctx, name)
            path = os.path.join(d, "x" + r.choice(ps.ENDINGS[sumpf.Signal] + ("", ".bin")))
            a.save(path, fmt)
            with open(path, "rb") as f:
                content = f.read()
            keep = r.choice((0, 1, 4, 12, len(content) - 1, r.randrange(len(content)), r.randrange(len(content)), r.randrange(len(content))))
            keep = min(keep, len(content) - 1)
            with open(path, "wb") as f:
                f.write(content[0:keep])
            what = f"{gen.describe(a)} saved as {name} in {os.path.basename(path)!r} and truncated from {len(content)} to {keep} bytes"
            ctx.note(what)
            outcome = self_load(ctx, path, what)
            if outcome is None:
                ctx.event("truncated file rejected")
            elif name in EXACT + TABLE:
                ctx.check(name == "NUMPY_NPZ" and outcome == a, lambda: f"{what} has been loaded as {gen.describe(outcome)}")
            else:
                n = outcome.length()
                ctx.check(len(outcome) == len(a) and n <= a.length(), lambda: f"{what} has been loaded as {gen.describe(outcome)}")
                if name != "OGG_VORBIS" and n:
                    step = ps.tolerance(name, a.channels()[:, 0:n])
                    bad = ~(numpy.abs(outcome.channels() - a.channels()[:, 0:n]) <= step)
                    bad[:, -1] = False      # the last frame may be incomplete
                    ctx.check(not bad.any(), lambda: f"{what} has been loaded with wrong samples, {gen.diff(outcome.channels(), a.channels()[:, 0:n])}")
            ctx.sign("truncated", name, keep < 13, keep == len(content) - 1, outcome is None)
        elif k == 2:    # foreign files
            content, kind = ps.garbage(ctx)
            path = os.path.join(d, ps.stem(ctx) + r.choice(ps.ENDINGS[sumpf.Signal] + ps.OTHER_ENDINGS))
            with open(path, "wb") as f:
                f.write(content)
            what = f"a foreign file ({kind}: {content[0:40]!r}) named {os.path.basename(path)!r}"
            outcome = self_load(ctx, path, what)
            ctx.check(outcome is None, lambda: f"{what} has been loaded as {gen.describe(outcome)}")
            ctx.event("foreign file rejected")
            ctx.sign("foreign", kind, os.path.splitext(path)[1])
        elif k == 3:    # no file at all
            path = r.choice((os.path.join(d, "missing" + r.choice(ps.ENDINGS[sumpf.Signal])), d, os.path.join(d, "a", "b.wav")))
            what = f"the path {path!r}, where there is no file,"
            outcome = self_load(ctx, path, what)
            ctx.check(outcome is None, lambda: f"{what} has been loaded as {gen.describe(outcome)}")
            ctx.event("missing file rejected")
        else:           # paths and endings, that cannot be saved to
            fmt = r.choice(ps.formats(sumpf.Signal))
            a = make(ctx, ps.name_of(sumpf.Signal, fmt))
            if r.random() < 0.5:
                path = r.choice((d, os.path.join(d, "missing", "x.wav"), os.path.join(d, "x" * 300)))
                before = sorted(os.listdir(d))
                try:
                    a.save(path, fmt)
                except Exception:   # pylint: disable=broad-except; the kind of error depends on the library
                    ctx.event("unwritable path reported")
                else:
                    ctx.fail(f"saving {gen.describe(a)} as {fmt} at {path!r} has not raised an error")
                ctx.check(sorted(os.listdir(d)) == before, lambda: f"saving {gen.describe(a)} as {fmt} at {path!r} has created {os.listdir(d)}")
            else:
                path = os.path.join(d, "x" + r.choice(("", ".foo", ".wave", ".txt", ".csv2", ".wav.bak")))
                try:
                    a.save(path)
                except ValueError:
                    ctx.event("unknown ending rejected")
                else:
                    ctx.fail(f"saving to {os.path.basename(path)!r} has not raised an error")
            ctx.sign("unwritable", os.path.basename(path)[0:10])


def self_load(ctx, path, what):
    """the loaded signal or None, if the documented error has been raised"""
    try:
        return sumpf.Signal.load(path)
    except ValueError:
        return None
    except Exception as e:      # pylint: disable=broad-except
        ctx.fail(f"loading {what} has raised {type(e).__name__}: {e} instead of a ValueError")


def derived_types(ctx):
    """signals of the sub-classes can be saved as well"""
    r = ctx.rng
    n = r.randint(16, 64)
    a = r.choice((lambda: sumpf.HannWindow(length=n), lambda: sumpf.GaussianNoise(length=n, seed=3), lambda: sumpf.SineWave(length=n), lambda: sumpf.ConstantSignal(length=n), lambda: sumpf.SquareWave(length=n),
                  lambda: sumpf.Fade(length=n), lambda: sumpf.EnergyDecayCurve(sumpf.GaussianNoise(length=n, seed=3)), lambda: sumpf.MaximumLengthSequence(bits=4), lambda: sumpf.UniformNoise(length=n, seed=3),
                  lambda: sumpf.KaiserWindow(length=n, plateau=4)))()
    name = r.choice(EXACT)
    fmt = getattr(sumpf.Signal.file_formats, name)
    with ps.Directory() as d:
        path = os.path.join(d, "x")
        a.save(path, fmt)
        judge(ctx, name, a, sumpf.Signal.load(path), path, f"{type(a).__name__} saved as {name}")
    ctx.sign("derived", type(a).__name__, name)


def sweep_pickle(ctx):
    for cls in (sumpf.ExponentialSweep, sumpf.LinearSweep, sumpf.InverseExponentialSweep, sumpf.InverseLinearSweep):
        a = cls(length=64)
        with ps.Directory() as d:
            path = os.path.join(d, "x.pickle")
            try:
                a.save(path)
            except (AttributeError, pickle.PicklingError) as e:
                ctx.fail(f"saving a {cls.__name__} as a pickle raised {type(e).__name__}: {e}", key="sweep-pickle")
            else:
                judge(ctx, "PYTHON_PICKLE", a, sumpf.Signal.load(path), path, f"{cls.__name__} saved as PYTHON_PICKLE")


def aiff_odd_bytes(ctx):
    for name in ("AIFF_UINT8", "AIFF_ULAW", "AIFF_ALAW"):
        a = sumpf.Signal(channels=numpy.linspace(-0.5, 0.5, 43).reshape(1, 43), sampling_rate=8000.0)
        with ps.Directory() as d:
            path = os.path.join(d, "x.aiff")
            a.save(path, getattr(sumpf.Signal.file_formats, name))
            judge(ctx, name, a, sumpf.Signal.load(path), path, f"43 samples saved as {name}")


PROBES = [("aiff odd bytes", aiff_odd_bytes), ("sweep pickle", sweep_pickle)]
SCENARIOS = [("roundtrip", roundtrip, 2000, 15000), ("automatic", automatic, 500, 4000), ("encoded", encoded, 800, 6000), ("faults", faults, 1500, 10000), ("derived types", derived_types, 100, 500),
             ("large roundtrip", gen.big(roundtrip, 70000), 8, 80)]
