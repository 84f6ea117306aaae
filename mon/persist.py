"""Names, formats and independent decoders for the checks of saving and loading."""
import csv
import json
import os
import pickle
import resource
import shutil
import signal as signals
import tempfile
import numpy
import sumpf
from . import gen

signals.signal(signals.SIGXFSZ, signals.SIG_IGN)

STEMS = ("x", "a.b", "with space", ".hidden", "Ünïcödé µ", "file.wav", "{curly}", "%s", "-dash", "x" * 60, "quote'\"", "tab\tname", "1.0", "#hash", "semi;colon")
ENDINGS = {sumpf.Signal: (".csv", ".json", ".js", ".npz", ".npy", ".pickle", ".wav", ".aiff", ".aifc", ".aif", ".flac", ".ogg", ".oga"),
           sumpf.Spectrum: (".csv", ".json", ".js", ".npz", ".npy", ".pickle"),
           sumpf.Spectrogram: (".json", ".js", ".npz", ".pickle"),
           sumpf.Filter: (".txt", ".json", ".js", ".pickle"),
           sumpf.Bands: (".txt", ".dat", ".asc", ".tab", ".csv", ".json", ".js", ".npy", ".npz", ".pickle")}
OTHER_ENDINGS = ("", ".foo", ".WAV", ".Json", ".CSV", ".NPZ", ".Pickle", ".txt2", ".csv~", ".")


class Directory:
    """a scratch directory"""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="monper")
        return self.path

    def __exit__(self, *args):
        shutil.rmtree(self.path, ignore_errors=True)


def formats(cls):
    return [f for f in _all(cls) if f is not cls.file_formats.AUTO]


def _all(cls):
    return [getattr(cls.file_formats, n) for n in dir(cls.file_formats) if n[0:1].isupper() and not n.startswith("_")]


def name_of(cls, fmt):
    return next(n for n in dir(cls.file_formats) if n[0:1].isupper() and getattr(cls.file_formats, n) is fmt)


def container(path):
    """the kind of file, judged by its content alone"""
    with open(path, "rb") as f:
        d = f.read()
    if d[0:4] == b"RIFF" and d[8:12] == b"WAVE":
        return "wav"
    if d[0:4] == b"FORM" and d[8:12] in (b"AIFF", b"AIFC"):
        return "aiff"
    if d[0:4] == b"fLaC":
        return "flac"
    if d[0:4] == b"OggS":
        return "ogg"
    if d[0:2] == b"PK":
        return "npz"
    if d[0:6] == b"\x93NUMPY":
        return "npy"
    if d[0:1] == b"\x80":
        return "pickle"
    try:
        t = d.decode()
    except UnicodeDecodeError:
        return "unknown"
    try:
        if isinstance(json.loads(t), dict):
            return "json"
    except ValueError:
        pass
    if t.startswith("# frequencies"):
        return "table"
    if t.startswith(("Filter(", "Bands(")):
        return "repr"
    if t.startswith(("time", "frequency")):
        return "csv"
    return "text"


CONTAINERS = {"TEXT_CSV": "csv", "TEXT_JSON": "json", "NUMPY_NPZ": "npz", "NUMPY_NPY": "npy", "PYTHON_PICKLE": "pickle", "TEXT_REPR": "repr",
              "TEXT_TAB_I": "table", "TEXT_TAB_J": "table", "TEXT_PIPE_I": "table", "TEXT_PIPE_J": "table", "TEXT_GNUPLOT": "table", "FLAC_INT8": "flac", "FLAC_INT16": "flac", "FLAC_INT24": "flac",
              "OGG_VORBIS": "ogg"}
for _n in ("WAV", "AIFF"):
    for _m in ("UINT8", "INT8", "INT16", "INT24", "INT32", "FLOAT32", "FLOAT64", "ULAW", "ALAW"):
        CONTAINERS[f"{_n}_{_m}"] = _n.lower()
BY_ENDING = {".csv": ("csv",), ".json": ("json",), ".js": ("json",), ".npz": ("npz",), ".npy": ("npy",), ".pickle": ("pickle",), ".wav": ("wav",), ".aiff": ("aiff",), ".aifc": ("aiff",), ".aif": ("aiff",),
             ".flac": ("flac",), ".ogg": ("ogg",), ".oga": ("ogg",), ".txt": ("table", "repr"), ".dat": ("table", "csv"), ".asc": ("table",), ".tab": ("table",)}

SUBTYPES = {"UINT8": "PCM_U8", "INT8": "PCM_S8", "INT16": "PCM_16", "INT24": "PCM_24", "INT32": "PCM_32", "FLOAT32": "FLOAT", "FLOAT64": "DOUBLE", "ULAW": "ULAW", "ALAW": "ALAW", "VORBIS": "VORBIS"}


def tolerance(name, samples):
    """the quantization step of the audio formats for each of the given samples"""
    kind = name.split("_")[-1]
    a = numpy.abs(samples)
    if kind in ("UINT8", "INT8"):
        return numpy.full(a.shape, 1.01 / 128)
    if kind == "INT16":
        return numpy.full(a.shape, 1.01 / 2 ** 15)
    if kind == "INT24":
        return numpy.full(a.shape, 1.01 / 2 ** 23)
    if kind == "INT32":
        return numpy.full(a.shape, 1.01 / 2 ** 31)
    if kind == "FLOAT32":
        return a * 2.0 ** -23 + 1e-40
    if kind == "FLOAT64":
        return numpy.zeros(a.shape)
    if kind in ("ULAW", "ALAW"):        # steps of 1/16 of an octave, but not less than the smallest step
        return numpy.maximum(a / 16.0, 2.0 ** -11) * 1.01 + 2.0 ** -12
    return None                         # lossy


class FullDisk:
    """makes every write beyond the given file size fail"""

    def __init__(self, size):
        self.__size = size

    def __enter__(self):
        self.__before = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.__size, self.__before[1]))

    def __exit__(self, *args):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.__before)


def garbage(ctx):
    """the content of files, which are in none of the supported formats, with a description"""
    r = ctx.rng
    k = r.randrange(7)
    if k == 0:
        return b"", "empty"
    if k == 1:
        return bytes(r.randrange(256) for _ in range(r.randint(1, 400))) + b"\xff\xfe", "random bytes"
    if k == 2:
        return r.choice(("Lorem ipsum", "Lorem ipsum\ndolor sit amet\n", "hello, world", "a,b\nc,d\n", "# only a comment", "\n\n\n", "; \n", "<xml></xml>", "[1, 2, 3]", "null", "import os\nos")).encode(), "text"
    if k == 3:
        return bytes(r.choice((0, 0, 0, 10, 32, 65)) for _ in range(r.randint(1, 300))) + b"\0", "NULs"
    if k == 4:
        return b"RIFF\x24\0\0\0WAVE"[0:r.randint(4, 12)], "only the start of a wav file"
    if k == 5:
        return pickle.dumps({"channels": [[1.0]]}), "foreign pickle"
    return b"PK\x03\x04" + bytes(r.randrange(256) for _ in range(60)), "broken zip"


def stem(ctx):
    return ctx.rng.choice(STEMS)
