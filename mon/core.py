"""Core of the runtime monitoring framework: case runner, verdicts, replay files, evidence.

A check is a module ``mon.p_<ID>`` with

* ``PROPERTY``   the property id
* ``RULE``       text for the evidence file
* ``SCENARIOS``  list of (name, function(ctx), quick_cases, thorough_cases)
* ``REQUIRED``   optional list of event names, that must have been observed for a
                 verdict; a run, that did not reach them, ends with exit code 2
* ``PROBES``     optional list of (name, function(ctx)): deterministic scenarios,
                 that are run once per run (also used to re-observe known findings)

Each case drives the real code of /repo with a workload generated from
(VERIF_SEED, property, scenario, case number) and calls the monitors/oracles,
which raise ``Violation``.
"""
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import resource
import signal as _signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MEMORY = 5 << 30    # the limit of the address space of each worker
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


class Violation(Exception):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class CaseTimeout(BaseException):
    pass


def _alarm(_sig, _frame):
    raise CaseTimeout()


def known_findings(prop):
    result = {}
    try:
        with open(KNOWN_FILE) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known:"):
                    fields = line[len("known:"):].strip().split(None, 2)
                    p = fields[0].split("=", 1)[1]
                    k = fields[1].split("=", 1)[1]
                    if p == prop:
                        result[k] = fields[2] if len(fields) > 2 else ""
    except FileNotFoundError:
        pass
    return result


class Ctx:
    """What a scenario gets: random sources, event counters and the verdict functions."""

    def __init__(self, prop, scenario, seed, index, tier, known):
        import numpy
        self.prop, self.scenario, self.seed, self.index, self.tier = prop, scenario, seed, index, tier
        digest = hashlib.sha256(f"{prop}/{scenario}/{seed}/{index}".encode()).digest()
        self.rng = random.Random(digest)
        self.np = numpy.random.default_rng(int.from_bytes(digest[:8], "little"))
        self.events = {}
        self.signatures = set()
        self.known = known
        self.known_seen = {}
        self.notes = []
        self.checks = 0

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def sign(self, *what):
        """registers the equivalence class of what has just been observed"""
        self.signatures.add(repr(what))

    def note(self, text):
        self.notes.append(str(text)[:400])

    def fail(self, message, key=None):
        if key is not None and key in self.known:
            self.known_seen[key] = self.known_seen.get(key, 0) + 1
            return False
        raise Violation(message, key)

    def check(self, condition, message, key=None):
        self.checks += 1
        if not condition:
            return self.fail(message() if callable(message) else message, key)
        return True


def run_case(module, scenario, function, seed, index, tier, known, case_timeout):
    ctx = Ctx(module.PROPERTY, scenario, seed, index, tier, known)
    violation = None
    _signal.signal(_signal.SIGALRM, _alarm)
    _signal.setitimer(_signal.ITIMER_REAL, case_timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            function(ctx)
    except Violation as e:
        violation = f"{e}"
    except CaseTimeout:
        violation = f"operation did not terminate within {case_timeout} s"
    except Exception as e:      # pylint: disable=broad-except
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-4:])
        violation = f"unexpected {type(e).__name__}: {str(e)[:300]} [{where}]" + (f" after: {'; '.join(ctx.notes[-3:])}" if ctx.notes else "")
    finally:
        _signal.setitimer(_signal.ITIMER_REAL, 0)
    return ctx, violation


def poison_allocations():
    """makes reads of uninitialised memory visible: arrays from numpy.empty are filled with NaN or other garbage
    (besides, tools/check sets MALLOC_PERTURB_, so that the C library fills each other allocation with a pattern)"""
    import functools
    import numpy

    def poisoned(function):
        @functools.wraps(function)
        def allocate(*args, **kwargs):
            array = function(*args, **kwargs)
            if type(array) is numpy.ndarray and 0 < array.size < 10 ** 7:   # pylint: disable=unidiomatic-typecheck
                kind = array.dtype.kind
                if kind in "fc":
                    array.fill(numpy.nan)
                elif kind in "iu":
                    array.fill(85)
                elif kind == "b":
                    array.fill(True)
            return array
        allocate.poisoned = True
        return allocate
    for name in ("empty", "empty_like"):
        if not hasattr(getattr(numpy, name), "poisoned"):
            setattr(numpy, name, poisoned(getattr(numpy, name)))


class Lines:
    """Which source lines of sumpf were executed while the monitors were active."""

    def __init__(self):
        self.seen = {}
        self.active = False

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        prefix = os.path.join(REPO, "sumpf") + os.sep

        def on_line(code, line):
            if code.co_filename.startswith(prefix):
                self.seen.setdefault(code.co_filename[len(prefix):], set()).add(line)
            return mon.DISABLE
        try:
            mon.use_tool_id(mon.COVERAGE_ID, "mon")
        except ValueError:
            return
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
        self.active = True


LINES = Lines()


def _worker(args, progress=None):
    modname, tier, seed, shard, shards, deadline, scale, only = args
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    multiprocessing.RawArray("d", 1)    # multiprocessing's heap, from which SuMPF allocates arrays, must not be reinitialized by multiple threads at once after a fork
    poison_allocations()
    module = importlib.import_module(modname)
    known = known_findings(module.PROPERTY)
    if shard == 0 or os.environ.get("MON_LINES"):
        LINES.start()
    out = {"cases": {}, "events": {}, "signatures": set(), "violations": [], "known": {}, "notes": [], "checks": 0,
           "skipped": 0, "lines": None}
    timeout = getattr(module, "CASE_TIMEOUT", 60)
    work = []
    if shard == 0:
        for name, function in getattr(module, "PROBES", ()):
            if only is None or name == only:
                work.append((name, function, 0))
    scen = []
    for name, function, quick, thorough in module.SCENARIOS:
        if only is not None and name != only:
            continue
        n = int((quick if tier == "quick" else thorough) * scale) or 1
        scen.append([(name, function, i) for i in range(shard, n, shards)])
    # interleave the scenarios proportionally, so that a deadline hits all of them equally
    merged = sorted(((i + 0.5) / len(l), j, l[i]) for j, l in enumerate(scen) for i in range(len(l)))
    work += [w for _, _, w in merged]
    names = [n for n, *_ in list(getattr(module, "PROBES", ())) + list(module.SCENARIOS)]
    for name, function, i in work:
        if time.time() > deadline:
            out["skipped"] += 1
            continue
        if progress is not None:
            progress[0], progress[1], progress[2] = time.time(), names.index(name), i
        ctx, violation = run_case(module, name, function, seed, i, tier, known, timeout)
        out["cases"][name] = out["cases"].get(name, 0) + 1
        for k, v in ctx.events.items():
            out["events"][k] = out["events"].get(k, 0) + v
        out["signatures"] |= {f"{name}:{s}" for s in ctx.signatures}
        out["checks"] += ctx.checks
        for k, v in ctx.known_seen.items():
            out["known"][k] = out["known"].get(k, 0) + v
        if len(out["notes"]) < 4 and ctx.notes:
            out["notes"].append({"scenario": name, "case": i, "observed": ctx.notes[:3]})
        if violation is not None:
            out["violations"].append({"scenario": name, "case": i, "message": violation})
            if len(out["violations"]) >= 8 or "did not terminate" in violation or "MemoryError" in violation:
                break
    out["signatures"] = sorted(out["signatures"])
    out["lines"] = {f: sorted(l) for f, l in LINES.seen.items()} if LINES.active else {}
    return out


def _process(args, progress, connection):
    try:
        result = _worker(args, progress)
    except BaseException as e:      # pylint: disable=broad-except
        result = {"error": "".join(traceback.format_exception(e))[-2000:]}
    connection.send(result)
    connection.close()
    os._exit(0)


def _run_workers(args, module):
    """runs the workers in processes of their own; one, that dies or does not finish a case, is reported with this case"""
    names = [n for n, *_ in list(getattr(module, "PROBES", ())) + list(module.SCENARIOS)]
    timeout = getattr(module, "CASE_TIMEOUT", 60)
    mp = multiprocessing.get_context("fork")
    running, results = {}, []
    for a in args:
        progress = mp.Array("d", 3, lock=False)
        progress[0] = time.time()
        receive, send = mp.Pipe(duplex=False)
        p = mp.Process(target=_process, args=(a, progress, send))
        p.start()
        send.close()
        running[p] = (receive, progress)
    while running:
        multiprocessing.connection.wait([r for r, _ in running.values()], timeout=1.0)
        for p, (receive, progress) in list(running.items()):
            lost = None
            if receive.poll():
                try:
                    results.append(receive.recv())
                except EOFError:
                    p.join(10)
                    lost = f"the process running the case ended unexpectedly (exit code {p.exitcode}; crash or lack of memory)"
            elif time.time() - progress[0] > timeout + 60:
                lost = f"operation did not terminate within {timeout + 60} s and could not be interrupted"
            else:
                continue
            if lost:
                v = {"scenario": names[int(progress[1])], "case": int(progress[2]), "message": lost}
                results.append({"cases": {}, "events": {}, "signatures": [], "violations": [v], "known": {}, "notes": [], "checks": 0, "skipped": 0, "lines": {}})
            if p.is_alive():
                p.join(5 if not lost else 0)
                if p.is_alive():
                    p.kill()
                    p.join()
            del running[p]
    return results


def run(prop, tier, seed, workers=None, scale=1.0, only=None, quiet=False):
    start = time.time()
    modname = f"mon.p_{prop}"
    module = importlib.import_module(modname)
    budget = getattr(module, "BUDGET", {}).get(tier, 200 if tier == "quick" else 1500)
    workers = workers or getattr(module, "WORKERS", {}).get(tier, 8)
    if tier == "quick":
        scale *= getattr(module, "QUICK", 8)    # the fast checks run more cases than their scenarios specify
    else:
        scale *= getattr(module, "THOROUGH", 10)
    deadline = start + budget
    args = [(modname, tier, seed, s, workers, deadline, scale, only) for s in range(workers)]
    if workers == 1:
        results = [_worker(args[0])]
    else:
        results = _run_workers(args, module)
        for r in results:
            if "error" in r:
                print(f"INCONCLUSIVE: {r['error']}")
                return 2
    tot = {"cases": {}, "events": {}, "signatures": set(), "violations": [], "known": {}, "notes": [], "checks": 0, "skipped": 0}
    lines = {}
    for r in results:
        for d in ("cases", "events", "known"):
            for k, v in r[d].items():
                tot[d][k] = tot[d].get(k, 0) + v
        tot["signatures"] |= set(r["signatures"])
        tot["violations"] += r["violations"]
        tot["notes"] += r["notes"]
        tot["checks"] += r["checks"]
        tot["skipped"] += r["skipped"]
        for f, l in r["lines"].items():
            lines.setdefault(f, set()).update(l)
    known = known_findings(prop)
    wall = time.time() - start
    evidence = {"property": prop, "tier": tier, "seed": seed,
                "level": getattr(module, "LEVEL", "exploration"),
                "coverage": {"evaluations": sum(tot["cases"].values()),
                             "distinct_nontrivial": len(tot["signatures"]),
                             "rule": module.RULE,
                             "samples": tot["notes"][:6] or [{"scenario": k, "cases": v} for k, v in list(tot["cases"].items())[:5]],
                             "cases_per_scenario": tot["cases"],
                             "events_observed": dict(sorted(tot["events"].items())),
                             "oracle_verdicts": tot["checks"],
                             "cases_not_run_for_time": tot["skipped"],
                             "known_findings_observed": tot["known"],
                             "sumpf_lines_executed_in_one_worker": {f: len(l) for f, l in sorted(lines.items())}},
                "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
                "violations": len(tot["violations"]),
                "wall_s": round(wall, 2)}
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(path + ".tmp", path)
    if os.environ.get("MON_LINES"):
        with open(os.environ["MON_LINES"] + f".{prop}", "w") as f:
            json.dump({k: sorted(v) for k, v in lines.items()}, f)
    for k in sorted(known):
        if tot["known"].get(k):
            print(f"KNOWN-FINDING: property={prop} {k}: {known[k]} (observed {tot['known'][k]} times)")
        elif only is None:
            print(f"note: known finding {k} was not observed in this run")
    if tot["violations"]:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for v in tot["violations"]:
            if len(seen) >= 6:
                break
            path = os.path.join(VERIF, "replays", f"{prop}-{v['scenario']}-{seed}-{v['case']}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "scenario": v["scenario"], "seed": seed, "case": v["case"], "tier": tier,
                           "message": v["message"], "replay_cmd": f"tools/check {prop} --replay {path}"}, f, indent=1)
            print(f"  {v['scenario']} case {v['case']}: {v['message'][:1200]}")
            print(f"VIOLATION property={prop} replay={path}")
            seen.add(path)
        return 1
    missing = [e for e in getattr(module, "REQUIRED", ()) if not tot["events"].get(e)]
    if only is None and missing:
        print(f"INCONCLUSIVE property={prop}: the monitors did not observe {missing}")
        return 2
    if not quiet:
        print(f"OK property={prop} tier={tier} seed={seed} cases={sum(tot['cases'].values())} "
              f"distinct={len(tot['signatures'])} verdicts={tot['checks']} wall={wall:.1f}s")
    return 0


def replay(prop, path):
    poison_allocations()
    module = importlib.import_module(f"mon.p_{prop}")
    with open(path) as f:
        r = json.load(f)
    for name, function in [(n, f) for n, f, *_ in list(module.SCENARIOS) + list(getattr(module, "PROBES", ()))]:
        if name == r["scenario"]:
            ctx, violation = run_case(module, name, function, r["seed"], r["case"], r["tier"], known_findings(prop),
                                      getattr(module, "CASE_TIMEOUT", 60))
            print(ctx.events)
            for n in ctx.notes:
                print("note:", n)
            if violation:
                print(violation)
                print(f"VIOLATION property={prop} replay={path}")
                return 1
            print("no violation")
            return 0
    print("unknown scenario")
    return 2
