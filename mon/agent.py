"""A process, in which some optional libraries are missing.  It is started with the blocked libraries as arguments
(``name`` for a missing package, ``name:OSError`` for a package without its native library), receives pickled tasks from
its standard input and answers with plain data.
"""
import importlib.abc
import os
import pickle
import random
import re
import sys
import tempfile

LIBRARIES = ("scipy", "soundfile", "numexpr", "jack")


class Blocker(importlib.abc.MetaPathFinder):
    def __init__(self, blocked):
        self.blocked = blocked
        self.attempts = {}

    def find_spec(self, name, _path=None, _target=None):
        top = name.split(".")[0]
        if top in self.blocked:
            self.attempts[top] = self.attempts.get(top, 0) + 1
            kind = self.blocked[top]
            if kind == "OSError":
                raise OSError(f"{top} library not found")
            if kind == "ImportError":
                raise ImportError(f"cannot import {name}")
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


class AgentCtx:
    """the random sources of one task"""

    def __init__(self, seed):
        import numpy
        self.rng = random.Random(seed)
        self.np = numpy.random.default_rng(abs(hash(seed)) % (1 << 60) if isinstance(seed, int) else 0)

    def event(self, *_args):
        pass


def plain(x, sumpf, numpy, depth=0):
    """a description of a result, that does not need sumpf for being unpickled"""
    if isinstance(x, BaseException):
        return ("error", type(x).__name__, str(x)[:200])
    if isinstance(x, sumpf.Signal):
        return ("Signal", x.shape(), numpy.array(x.channels()), x.sampling_rate(), x.offset(), x.labels())
    if isinstance(x, sumpf.Spectrum):
        return ("Spectrum", x.shape(), numpy.array(x.channels()), x.resolution(), x.labels())
    if isinstance(x, sumpf.Spectrogram):
        return ("Spectrogram", x.shape(), numpy.array(x.channels()), x.resolution(), x.sampling_rate(), x.offset(), x.labels())
    if isinstance(x, sumpf.Filter):
        from mon import live
        with numpy.errstate(all="ignore"):
            try:
                response = numpy.array(x(live.FREQUENCIES))
            except Exception as e:      # pylint: disable=broad-except
                response = plain(e, sumpf, numpy)
        return ("Filter", len(x), response, x.labels())
    if isinstance(x, numpy.ndarray):
        return ("array", x.shape, numpy.array(x) if x.dtype != object else x.tolist())
    if isinstance(x, (float, complex, numpy.generic)):
        return ("array", (), numpy.array(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(plain(v, sumpf, numpy) for v in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((plain(k, sumpf, numpy), plain(v, sumpf, numpy)) for k, v in x.items())
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return ("value", re.sub(r"\b0x[0-9a-fA-F]+", "0x", x) if isinstance(x, str) else x)
    return ("other", type(x).__name__)


class Usage:
    """records, which optional libraries have been called"""

    def __init__(self):
        self.used = set()
        self.cache = {}

    def profile(self, frame, event, _arg):
        if event == "call":
            code = frame.f_code
            name = self.cache.get(code)
            if name is None:
                f = code.co_filename
                name = ""
                if code.co_name != "<module>":
                    for l in LIBRARIES:
                        if f"/{l}/" in f or f.endswith(f"/{l}.py"):
                            name = l
                self.cache[code] = name
            if name:
                self.used.add(name)

    def __enter__(self):
        self.used = set()
        sys.setprofile(self.profile)
        return self

    def __exit__(self, *_args):
        sys.setprofile(None)


def names(sumpf):
    return sorted(n for n in dir(sumpf) if not n.startswith("_"))


def main():
    blocked = {}
    for a in sys.argv[1:]:
        name, _, kind = a.partition(":")
        blocked[name] = kind
    blocker = Blocker(blocked)
    sys.meta_path.insert(0, blocker)
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)       # nothing, that is printed, must get into the answers
    source = sys.stdin.buffer
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.join(verif, "mon")]
    sys.path[0:0] = [repo, verif]
    import warnings
    warnings.simplefilter("ignore")
    import numpy
    import connectors       # noqa: F401
    sys.pycache_prefix = "/nonexistent"

    def answer(x):
        pickle.dump(x, out)
        out.flush()
    try:
        import sumpf
    except BaseException as e:      # pylint: disable=broad-except
        answer(("import failed", f"{type(e).__name__}: {e}"))
        return
    answer(("ready", names(sumpf), sorted(m for m in LIBRARIES if m in sys.modules)))
    from mon import tasks
    usage = Usage()
    while True:
        try:
            task, seed, args = pickle.load(source)
        except EOFError:
            return
        ctx = AgentCtx(seed)
        with usage, tempfile.TemporaryDirectory(prefix="mon") as directory:
            try:
                with numpy.errstate(all="ignore"):
                    result = getattr(tasks, task)(ctx, directory, *args)
                    result = result if type(result) is tasks.Raw else plain(result, sumpf, numpy)
            except MemoryError:
                raise
            except Exception as e:      # pylint: disable=broad-except
                result = plain(e, sumpf, numpy)
        answer((result if not isinstance(result, tasks.Raw) else ("raw", result.value), sorted(usage.used), dict(blocker.attempts)))


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
