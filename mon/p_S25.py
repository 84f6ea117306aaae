"""S25: optional libraries change the availability of features, but not the results."""
import os
import pickle
import subprocess
import sys
import numpy
from . import persist as ps

PROPERTY = "S25"
RULE = ("processes, in which subsets of the optional libraries are missing (as packages, or as native libraries of installed packages), execute the same tasks with the same random numbers as a "
        "process with all libraries: public operations on random data, long and short sweeps, all classes of the package, scipy based statistics and transforms, saving and loading in all formats.  "
        "A profiler in the complete process observes, which libraries a task really calls.  The results have to be the same; a task may fail with an explicit error only if the "
        "complete process has called a missing library; files are exchanged between the processes.  Distinct by missing libraries, task, used libraries and outcome")
ASSUMPTIONS = ["sumpf's hard dependencies numpy and connectors are available",
               "explicit errors are ImportError, ValueError, the AttributeError for a name, that the package does not have without the library, and the OSError of a package without its native library",
               "sweeps, that are computed with numexpr, equal those computed with numpy up to rounding errors of the phase",
               "audio formats, that Python's standard library cannot handle, require soundfile"]
REQUIRED = ["processes started", "import without libraries", "same result without a library", "explicit error at use", "sweep evaluated by numexpr", "feature needs scipy", "file exchanged", "file format needs soundfile",
            "native library missing", "same error", "class created"]
THOROUGH = 1
QUICK = 1
BUDGET = {"quick": 240, "thorough": 800}
WORKERS = {"quick": 8, "thorough": 8}
CASE_TIMEOUT = 180

LIBRARIES = ("jack", "numexpr", "scipy", "soundfile")
SCIPY_NAMES = {"BartlettHannWindow", "BlackmanHarrisWindow", "BohmanWindow", "DolphChebyshevWindow", "ExponentialWindow", "FlatTopWindow", "GaussianWindow", "NuttallWindow", "ParzenWindow", "SlepianWindow",
               "MaximumLengthSequence"}
SOUNDFILE_ONLY = {"WAV_INT24", "WAV_FLOAT32", "WAV_FLOAT64", "WAV_ULAW", "WAV_ALAW", "AIFF_UINT8", "AIFF_INT24", "AIFF_FLOAT32", "AIFF_FLOAT64", "AIFF_ULAW", "AIFF_ALAW", "FLAC_INT8", "FLAC_INT16", "FLAC_INT24",
                  "OGG_VORBIS"}
OPERATIONS = 26     # live.OPS and live.op_persist
EXPLICIT = ("ImportError", "ModuleNotFoundError", "ValueError", "AttributeError", "OSError")
CONFIGURATIONS = [tuple(l for i, l in enumerate(LIBRARIES) if m & (1 << i)) for m in range(1, 16)]

VARIANTS = CONFIGURATIONS + [("jack:OSError",), ("soundfile:OSError",), ("jack:OSError", "soundfile:OSError"), ("jack:OSError", "numexpr:ImportError", "scipy:ImportError", "soundfile:OSError"),
                             ("scipy:ImportError",), ("numexpr:ImportError",), ("jack:ImportError", "soundfile:ImportError")]


class Agent:
    def __init__(self, configuration):
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2", NUMEXPR_NUM_THREADS="2")
        self.process = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "agent.py"), *configuration],
                                        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        try:
            self.greeting = pickle.load(self.process.stdout)
        except EOFError:
            self.greeting = ("import failed", "the process died")

    def __call__(self, task, seed, *args):
        pickle.dump((task, seed, args), self.process.stdin)
        self.process.stdin.flush()
        try:
            return pickle.load(self.process.stdout)
        except EOFError:
            return (("error", "Died", f"the process died with the status {self.process.wait()}"), [], {})

    def close(self):
        self.process.kill()
        self.process.stdin.close()
        self.process.stdout.close()
        self.process.wait()


AGENTS = {}


def agent(ctx, configuration):
    """the process for the configuration (only a few are kept alive)"""
    a = AGENTS.pop(configuration, None)
    if a is None or a.process.poll() is not None:
        if len(AGENTS) >= 7:
            old = next(c for c in AGENTS if c != ())
            AGENTS.pop(old).close()
        a = Agent(configuration)
        ctx.event("processes started")
    AGENTS[configuration] = a
    if a.greeting[0] != "ready":
        ctx.fail(f"import sumpf failed without {', '.join(configuration) or 'any blocked library'}: {a.greeting[1]}")
    return a


def blocked(configuration):
    return {c.partition(":")[0] for c in configuration}


def choose(ctx, *must, step=8):
    """a configuration, that lacks the given libraries; consecutive cases use the same one, so that the processes are reused"""
    candidates = [c for c in VARIANTS if set(must) <= blocked(c)]
    return candidates[(ctx.index // step * 7 + ctx.seed) % len(candidates)]


def equal(a, b, tol=1e-9):
    """compares two plain results"""
    if isinstance(a, tuple):
        if not isinstance(b, tuple) or len(a) != len(b):
            return False
        if a and a[0] == "error":
            return b[0] == "error" and a[1] == b[1]
        return all(equal(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, numpy.ndarray):
        if not isinstance(b, numpy.ndarray) or a.shape != b.shape:
            return False
        if a.dtype.kind not in "fciu" or b.dtype.kind not in "fciu":
            return a.tolist() == b.tolist()
        fa, fb = numpy.isfinite(a), numpy.isfinite(b)
        if not numpy.array_equal(fa, fb):
            return False
        x, y = a[fa], b[fb]
        return not x.size or bool(numpy.all(numpy.abs(x - y) <= tol * max(1e-300, float(numpy.max(numpy.abs(x))))))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or a != a and b != b or abs(a - b) <= 1e-12 * abs(a)
    return a == b


def short(x):
    t = repr(x)
    return t if len(t) < 300 else t[:300] + "..."


def judge(ctx, configuration, what, full, used, other, attempts, tol=1e-9):
    """compares the outcome in the complete process with that in the other one"""
    missing = blocked(configuration)
    if "numexpr" in used:
        tol = 1e-6      # rounding errors of large phases
    needed = set(used) & missing - {"numexpr"}
    fails, failed = full[0] == "error", other[0] == "error"
    ctx.check(not (failed and other[1] == "Died"), f"{what} without {', '.join(configuration)}: {short(other)}")
    ctx.sign(tuple(sorted(configuration)), what.split("(")[0], tuple(used), full[0] == "error" and full[1], other[0] == "error" and other[1])
    if failed and not (fails and full[1] == other[1]):
        explicit = other[1] in EXPLICIT
        if other[1] == "OSError":
            explicit = any(c.endswith(":OSError") for c in configuration) and "library not found" in other[2]
        name_missing = other[1] == "AttributeError" and "scipy" in missing and any(f"'{n}'" in other[2] for n in SCIPY_NAMES) or other[1] == "AttributeError" and "jack" in missing and "'Jack'" in other[2]
        if other[1] == "AttributeError":
            explicit = name_missing
        ctx.check(needed or name_missing, f"{what} fails without {', '.join(configuration)}, although it does not need {'them' if len(configuration) > 1 else 'it'} (it calls {used or 'no optional library'}): {short(other)} "
                                          f"instead of {short(full)}")
        ctx.check(explicit, f"{what} without {', '.join(configuration)} does not fail with an explicit error: {short(other)}")
        ctx.event("explicit error at use")
        if "scipy" in needed:
            ctx.event("feature needs scipy")
        return
    if fails:
        ctx.check(failed, f"{what} works without {', '.join(configuration)} ({short(other)}), but fails with all libraries: {short(full)}")
        ctx.event("same error")
        return
    ctx.check(equal(full, other, tol), lambda: f"{what} gives another result without {', '.join(configuration)}: {short(other)} instead of {short(full)}")
    ctx.event("same result without a library")
    if "numexpr" in used and "numexpr" in missing:
        ctx.event("sweep evaluated by numexpr")
    if any(c.endswith(":OSError") for c in configuration):
        ctx.event("native library missing")


def both(ctx, configuration, task, *args, tol=1e-9):
    seed = ctx.rng.randrange(1 << 40)
    full, used, _ = agent(ctx, ())(task, seed, *args)
    other, _, attempts = agent(ctx, configuration)(task, seed, *args)
    judge(ctx, configuration, f"{task}{args}", full, used, other, attempts, tol)
    return full, other


def imports(ctx):
    """the package can be imported without any subset and provides everything, that does not need the missing libraries"""
    c = CONFIGURATIONS[ctx.index % len(CONFIGURATIONS)]
    kind = ctx.index // len(CONFIGURATIONS)
    c = tuple(l + (":OSError" if kind == 1 and l in ("jack", "soundfile") else ":ImportError" if kind == 2 else "") for l in c)
    missing = blocked(c)
    full, a = agent(ctx, ()), agent(ctx, c)
    ctx.check(not missing & set(a.greeting[2]), lambda: f"the harness failed to block {missing}")
    allowed = (SCIPY_NAMES if "scipy" in missing else set()) | ({"Jack"} if "jack" in missing else set())
    lost = set(full.greeting[1]) - set(a.greeting[1])
    ctx.check(lost <= allowed, lambda: f"without {', '.join(c)} the package lacks {sorted(lost - allowed)}, which do not need these libraries")
    added = set(a.greeting[1]) - set(full.greeting[1])
    ctx.check(not added, lambda: f"without {', '.join(c)} the package has the additional names {sorted(added)}")
    ctx.sign(c, tuple(sorted(lost)))
    ctx.event("import without libraries")
    for name in ("SineWave", "HannWindow", "Spectrum"):
        both(ctx, c, "create", name)


def operations(ctx):
    c = choose(ctx)
    for _ in range(40):
        both(ctx, c, "operation", ctx.rng.randrange(OPERATIONS))


def sweeps(ctx):
    c = choose(ctx, "numexpr")
    name = ctx.rng.choice(("LinearSweep", "InverseLinearSweep", "ExponentialSweep", "InverseExponentialSweep"))
    for _ in range(3):
        both(ctx, c, "sweep", name)
    both(ctx, c, "harmonic", ctx.rng.choice(("LinearSweep", "ExponentialSweep")))


def classes(ctx):
    c = choose(ctx)
    names = [n for n in agent(ctx, ()).greeting[1] if n[0].isupper()]
    for name in ctx.rng.sample(names, 25):
        both(ctx, c, "create", name)
        ctx.event("class created")
        if name.endswith("Window"):
            both(ctx, c, "window", name)


def computations(ctx):
    c = choose(ctx, *ctx.rng.choice(((), ("scipy",))))
    for name in ("skewness", "kurtosis", "level", "mean", "variance", "standard_deviation"):
        both(ctx, c, "statistics", name)
    for inverse in (False, True):
        both(ctx, c, "stft", inverse)
    both(ctx, c, "fourier")
    both(ctx, c, "filters")
    both(ctx, c, "jack_block")


FORMATS = {}


def formats(kind):
    if not FORMATS:
        import sumpf
        for k in ("Signal", "Spectrum", "Spectrogram", "Filter", "Bands"):
            FORMATS[k] = [f.name for f in getattr(sumpf, k).file_formats if f.name != "AUTO"]
    return FORMATS[kind]


def files(ctx):
    r = ctx.rng
    kind = r.choice(("Signal", "Signal", "Signal", "Spectrum", "Spectrogram", "Filter", "Bands"))
    fmt = r.choice(formats(kind))
    if r.random() < 0.25:
        fmt = None
        endings = {"Signal": (".csv", ".json", ".npz", ".npy", ".pickle", ".wav", ".aiff", ".aif", ".flac", ".ogg"), "Filter": (".txt", ".json", ".pickle"), "Bands": (".csv", ".json", ".npz", ".npy", ".txt", ".pickle"),
                   }.get(kind, (".csv", ".json", ".npz", ".npy", ".pickle"))
        ending = r.choice(endings)
    else:
        ending = r.choice((".dat", ".x", "", ".wav", ".json", ".csv"))
    if fmt in ("FLAC_INT8",) and r.random() < 0.5:
        ending = ".flac"
    exchange(ctx, kind, fmt, ending)


def audio(ctx):
    r = ctx.rng
    fmt = r.choice([f for f in formats("Signal") if f.split("_")[0] in ("WAV", "AIFF", "FLAC", "OGG")])
    exchange(ctx, "Signal", fmt, r.choice((".dat", "", "." + fmt.split("_")[0].lower(), ".wav", ".csv", ".aiff")))


def exchange(ctx, kind, fmt, ending):
    """saves with one set of libraries and loads with another one"""
    r = ctx.rng
    seed = r.randrange(1 << 40)
    sets = [(), choose(ctx, "soundfile"), choose(ctx, step=16)]
    if sets[1] == sets[2]:
        sets.pop()
    r.shuffle(sets)
    what = f"{kind} saved as {fmt or 'AUTO'} in *{ending}"
    audio_format = fmt in ps.SUBTYPES or fmt is not None and fmt.split("_")[0] in ("WAV", "AIFF", "FLAC", "OGG")
    for saver in sets[0:2]:
        result, used, _ = agent(ctx, saver)("save", seed, kind, fmt, ending)
        needs = fmt in SOUNDFILE_ONLY or fmt is None and ending in (".flac", ".ogg")
        if result[0] == "error":
            full, fused, _ = agent(ctx, ())("save", seed, kind, fmt, ending)
            if full[0] == "error":
                ctx.check(full[1] == result[1] or "soundfile" in blocked(saver), f"{what}: {short(result)} without {', '.join(saver)}, but {short(full)} with all libraries")
                ctx.event("same error")
                continue
            ctx.check("soundfile" in blocked(saver) and needs, f"{what} fails without {', '.join(saver)}: {short(result)}")
            ctx.check(result[1] in ("ImportError", "ModuleNotFoundError", "ValueError"), f"{what} does not fail with an explicit error without {', '.join(saver)}: {short(result)}")
            ctx.event("file format needs soundfile")
            ctx.event("explicit error at use")
            ctx.sign(kind, fmt, ending, saver, "unsupported")
            continue
        ctx.check(result[0] == "raw", lambda: f"{what}: {short(result)}")
        original, content, reloaded = result[1]
        quantized(ctx, f"{what} without {', '.join(saver) or 'nothing'}", fmt, ending, original, reloaded, audio_format)
        for loader in sets:
            if loader == saver:
                continue
            loaded, used, _ = agent(ctx, loader)("load", seed, kind, content, ending)
            where = f"{what}, written without {', '.join(saver) or 'nothing'}, read without {', '.join(loader) or 'nothing'}"
            ctx.sign(kind, fmt, ending, tuple(sorted(blocked(saver))), tuple(sorted(blocked(loader))), loaded[0] == "error")
            if loaded[0] == "error":
                ctx.check("soundfile" in blocked(loader) and (needs or fmt is None and ending in (".wav", ".aiff", ".aif")), f"{where}: {short(loaded)}")
                ctx.check(loaded[1] in ("ValueError", "ImportError", "ModuleNotFoundError"), f"{where}: no explicit error: {short(loaded)}")
                ctx.event("file format needs soundfile")
                ctx.event("explicit error at use")
                continue
            ctx.check(equal(reloaded, loaded, 1e-12), lambda: f"{where}: {short(loaded)} instead of {short(reloaded)}")
            ctx.event("file exchanged")
            if any(c.endswith(":OSError") for c in loader):
                ctx.event("native library missing")


def quantized(ctx, what, fmt, ending, original, reloaded, audio_format):
    ctx.check(reloaded[0] == original[0], lambda: f"{what}: {short(reloaded)} instead of {short(original)}")
    if original[0] == "Filter":
        return
    a, b = original[2], reloaded[2]
    ctx.check(a.shape == b.shape, lambda: f"{what} has the shape {b.shape} instead of {a.shape}")
    if audio_format:
        tol = ps.tolerance(fmt, a)
    elif ending in (".wav", ".aiff", ".aif", ".flac") and fmt is None:
        tol = numpy.full(a.shape, 2.0 ** -22)
    else:
        tol = 1e-9 * numpy.abs(a) + 1e-300
    if tol is not None and not (fmt is None and ending == ".ogg"):
        ctx.check(bool(numpy.all(numpy.abs(a - b) <= tol)), lambda: f"{what} deviates by {numpy.max(numpy.abs(a - b))}")


SCENARIOS = [("imports", imports, 45, 45), ("operations", operations, 120, 700), ("sweeps", sweeps, 120, 800), ("classes", classes, 40, 250), ("computations", computations, 100, 600),
             ("files", files, 250, 1500), ("audio", audio, 250, 1500)]
