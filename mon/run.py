"""Command line entry: python -m mon.run <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] ..."""
import argparse
import os
import sys


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    p.add_argument("--replay")
    p.add_argument("--workers", type=int)
    p.add_argument("--scale", type=float, default=1.0)
    p.add_argument("--only")
    a = p.parse_args()
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    import warnings
    warnings.simplefilter("ignore")
    from mon import core
    sys.unraisablehook = lambda args: None      # e.g. archives, that could not be closed on a full disk
    try:
        import numpy                # noqa: F401  third party imports first, with their byte code caches ...
        for m in ("scipy.signal", "scipy.stats", "scipy.io.wavfile", "numexpr", "soundfile", "connectors"):
            try:
                __import__(m)
            except ImportError:
                pass
        sys.pycache_prefix = "/nonexistent"     # ... then sumpf, always from its current source code
        import sumpf
        root = os.path.realpath(os.path.dirname(os.path.dirname(sumpf.__file__)))
        if root != os.path.realpath(core.REPO):
            print(f"INCONCLUSIVE: sumpf was imported from {root}")
            return 2
    except Exception as e:      # pylint: disable=broad-except
        print(f"INCONCLUSIVE: sumpf cannot be imported: {e!r}")
        return 2
    if a.replay:
        return core.replay(a.property, a.replay)
    return core.run(a.property, a.tier, a.seed, workers=a.workers, scale=a.scale, only=a.only)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)      # no atexit handlers: a hanging thread of a faulty build must not swallow the verdict
