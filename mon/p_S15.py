"""S15: saved filters are restored."""
import os
import pathlib
import numpy
import sumpf
from . import filters as ft
from . import gen
from . import persist as ps

PROPERTY = "S15"
RULE = ("filters with random transfer function expressions (all terms, nested, transformed, complex valued, with bands) and all standard filters are saved in every lossless format and loaded, and the "
        "responses of the original and the loaded filter are compared at random frequencies; bands (real, complex and integer values, different frequencies per channel, empty bands, all "
        "interpolations) are saved in every format and loaded, and the supporting points, and where they are stored the interpolations and labels, are compared; tables of bands are composed by an independent "
        "generator in all documented layouts (delimiters, notations of numbers, comments, missing values, short lines) and read.  Distinct by format, ending, structure of the expressions, layout")
ASSUMPTIONS = ["responses are compared where they are well conditioned (the error bound of an independent evaluation is small)", "samples of bands are finite",
               "tables and NPY files do not contain labels and interpolations, CSV files no interpolations; values in tables are read as they are written, i.e. without a conversion from dB",
               "the text formats, that other programs read (tables and CSV), store real values of bands as real or complex numbers of the same value"]
REQUIRED = ["filter restored", "standard filter restored", "bands restored", "interpolations restored", "labels restored", "table read", "short line", "missing value", "comment", "gnuplot notation",
            "parentheses notation", "i notation", "upper case exponent", "comma separated", "pipe separated", "automatic format", "rejected", "multi-channel filter", "complex coefficient", "response compared", "full disk reported"]
QUICK = 4
BUDGET = {"quick": 150, "thorough": 700}
F = sumpf.Filter
I = sumpf.Bands.interpolations
DECLARED = None


def finite_tree(trees, r, depth):
    return trees.tree(depth)


def standard(ctx):
    r = ctx.rng
    f = r.uniform(20.0, 5000.0)
    return r.choice((lambda: sumpf.ButterworthFilter(f, r.randint(1, 8), r.random() < 0.5), lambda: sumpf.BesselFilter(f, r.randint(1, 6), r.random() < 0.5),
                     lambda: sumpf.Chebyshev1Filter(f, r.uniform(0.5, 5.0), r.randint(1, 6), r.random() < 0.5), lambda: sumpf.Chebyshev2Filter(f, r.uniform(20.0, 60.0), r.randint(1, 6), r.random() < 0.5),
                     sumpf.AWeighting, sumpf.BWeighting, sumpf.CWeighting, sumpf.DWeighting, sumpf.UWeighting, lambda: sumpf.DelayFilter(r.uniform(-0.01, 0.01)), sumpf.DerivativeFilter,
                     lambda: sumpf.ButterworthFilter(f, 2) * sumpf.AWeighting() + 0.5j, lambda: abs(sumpf.AWeighting()) / sumpf.DelayFilter(0.001)))()


def compare(ctx, what, a, b, fs, trees=None, relative=1e-12, absolute=0.0):
    ctx.check(len(a) == len(b), lambda: f"{what}: loaded with {len(b)} instead of {len(a)} channels")
    ctx.check(a.labels() == b.labels(), lambda: f"{what}: loaded with the labels {b.labels()} instead of {a.labels()}")
    with numpy.errstate(all="ignore"):
        x, y = numpy.asarray(a(fs)), numpy.asarray(b(fs))
    ctx.check(x.shape == y.shape, lambda: f"{what}: the response has the shape {y.shape} instead of {x.shape}")
    for c in range(len(a)):
        for i, f in enumerate(fs):
            if not numpy.isfinite(x[c, i]) or abs(x[c, i]) > 1e100:
                ctx.event("ill conditioned point skipped")
                continue
            if not abs(x[c, i] - y[c, i]) <= relative * abs(x[c, i]) + absolute:
                if trees is not None:
                    with numpy.errstate(all="ignore"):
                        v, e = ft.evaluate(trees[c], numpy.array([f]))
                    if not (numpy.isfinite(v).all() and numpy.isfinite(e).all()) or e.ravel()[0] > 1e-9 * abs(v.ravel()[0]):
                        ctx.event("ill conditioned point skipped")
                        continue
                    if abs(x[c, i] - y[c, i]) <= 128 * e.ravel()[0] + 1e-12 * abs(x[c, i]):
                        ctx.event("response compared")
                        continue
                ctx.fail(f"{what}: the response of channel {c} at {f} Hz is {y[c, i]!r} instead of {x[c, i]!r}")
            ctx.event("response compared")


def filters(ctx):
    r = ctx.rng
    use_standard = r.random() < 0.2
    trees = None
    if use_standard:
        a = standard(ctx)
        fs = numpy.array([0.0] + [10.0 ** r.uniform(0.0, 4.3) for _ in range(6)])
        shape = type(a).__name__
    else:
        g = ft.Trees(ctx, with_bands=r.random() < 0.3)
        n = r.choice((1, 1, 2, 3))
        trees = [g.tree(r.randint(0, 3)) for _ in range(n)]
        a = F(transfer_functions=[ft.build(t) for t in trees], labels=gen.labels(ctx, n))
        if r.random() < 0.15:
            k = r.uniform(0.5, 2.0) + 1j * r.uniform(0.5, 2.0)
            w = 2.0 * numpy.pi * g.f0
            extra = r.choice((("const", k), ("poly", (k / w, 0.5 + 1j), False), ("poly", numpy.array((1j / w, k)), True)))
            trees = [("prod", (t, extra), False) for t in trees]
            a = a * F(transfer_functions=[ft.build(extra)])
            a = F(transfer_functions=a.transfer_functions(), labels=gen.labels(ctx, n))
            ctx.event("complex coefficient")
        fs = g.frequencies(6, trees)
        shape = ft.shape(trees[0])
        if n > 1:
            ctx.event("multi-channel filter")
    name = r.choice(("TEXT_JSON", "TEXT_REPR", "PYTHON_PICKLE"))
    right = {"TEXT_JSON": (".json", ".js"), "TEXT_REPR": (".txt",), "PYTHON_PICKLE": (".pickle",)}[name]
    automatic = r.random() < 0.3
    ending = r.choice(right) if automatic or r.random() < 0.5 else r.choice(ps.ENDINGS[sumpf.Filter] + ps.ENDINGS[sumpf.Bands] + ps.OTHER_ENDINGS)
    with ps.Directory() as d:
        path = os.path.join(d, ps.stem(ctx) + ending)
        p = pathlib.Path(path) if r.random() < 0.3 else path
        what = f"{ft.shape(trees[0]) if trees else type(a).__name__} filter {gen.describe(a)} saved as {'AUTO' if automatic else name} in {os.path.basename(path)!r}"
        ctx.note(what)
        if r.random() < 0.3:
            with open(path, "wb") as f:
                f.write(b"1.0 2.0\n" * 40000)
        # every data set, that is a filter, but not Bands
        gen.warm(ctx, lambda: a.save(path + ".x", F.file_formats.TEXT_REPR), lambda: a.save(path + ".x", F.file_formats.TEXT_JSON), lambda: a.save(path + ".x", F.file_formats.PYTHON_PICKLE))
        got = a.save(p) if automatic else a.save(p, getattr(F.file_formats, name))
        ctx.check(got is a, lambda: f"{what}: save() returned {got!r}")
        ctx.check(ps.container(path) == ps.CONTAINERS[name], lambda: f"{what}: the file is a {ps.container(path)} file")
        b = sumpf.Filter.load(p)
        ctx.check(isinstance(b, F), lambda: f"{what}: loaded {b!r}")
        compare(ctx, what, a, b, fs, trees)
        ctx.event("standard filter restored" if use_standard else "filter restored")
        if automatic:
            ctx.event("automatic format")
        ctx.sign("filter", name, ending, shape)


def band_values(ctx, n, name):
    r = ctx.rng
    k = r.randrange(6)
    if k == 0:
        return [r.uniform(-3.0, 3.0) for _ in range(n)]
    if k == 1:
        return [complex(r.uniform(-3.0, 3.0), r.uniform(-3.0, 3.0)) for _ in range(n)]
    if k == 2:
        return [r.randint(-9, 9) for _ in range(n)]
    if k == 3:
        return [10.0 ** r.uniform(-12, 12) * r.choice((-1.0, 1.0)) for _ in range(n)]
    if k == 4:
        return [complex(r.choice((0.0, -1.0, 1e-5, 2e-300)), r.choice((0.0, 1.0, -1e-7, 3e20))) for _ in range(n)]
    return [r.uniform(0.1, 3.0) for _ in range(n)]


def band_frequencies(ctx):
    r = ctx.rng
    n = r.choice((0, 1, 1, 2, 3, r.randint(1, 12)))
    return sorted(r.sample((16, 31.5, 63.0, 125, 250.0, 500, 1000.0, 2000, 1e4, 1.25e-05, 2e20, 0.5, 123.456789, 1000.1, 3.0, 7.0), n))


def make_bands(ctx):
    r = ctx.rng
    n = r.choice((1, 1, 2, 3))
    common = band_frequencies(ctx)
    bands = []
    for _ in range(n):
        fs = common if r.random() < 0.5 else band_frequencies(ctx)
        bands.append(dict(zip(fs, band_values(ctx, len(fs), None))))
    return bands


def points(f):
    """the supporting points of each channel of bands"""
    return [dict(zip(t.xs.tolist(), t.ys.tolist())) for t in f.transfer_functions()]


def bands(ctx):
    r = ctx.rng
    fmt = r.choice(ps.formats(sumpf.Bands))
    name = ps.name_of(sumpf.Bands, fmt)
    values = make_bands(ctx)
    n = len(values)
    interpolations = [r.choice(list(I)) for _ in range(n)]
    extrapolations = [r.choice(list(I)) for _ in range(n)]
    labels = gen.labels(ctx, n)
    a = sumpf.Bands(bands=values, interpolations=interpolations, extrapolations=extrapolations, labels=labels)
    right = [e for e in ps.ENDINGS[sumpf.Bands] if ps.CONTAINERS[name] in ps.BY_ENDING[e]]
    automatic = r.random() < 0.3
    ending = r.choice(ps.ENDINGS[sumpf.Bands]) if automatic else (r.choice(right) if r.random() < 0.6 else r.choice(ps.ENDINGS[sumpf.Bands] + ps.OTHER_ENDINGS))
    with ps.Directory() as d:
        path = os.path.join(d, ps.stem(ctx) + ending)
        p = pathlib.Path(path) if r.random() < 0.3 else path
        if r.random() < 0.3:
            with open(path, "wb") as f:
                f.write(b"1.0 2.0\n" * 40000)
        what = f"Bands {values} ({[i.name for i in interpolations]}, {[i.name for i in extrapolations]}, {labels}) saved as {'AUTO' if automatic else name} in {os.path.basename(path)!r}"
        ctx.note(what)
        gen.warm(ctx, lambda: a.save(path + ".x", sumpf.Bands.file_formats.TEXT_REPR), lambda: a.save(path + ".x", sumpf.Bands.file_formats.TEXT_JSON), lambda: a.save(path + ".x", sumpf.Bands.file_formats.TEXT_CSV), lambda: a.save(path + ".x", sumpf.Bands.file_formats.NUMPY_NPZ))
        got = a.save(p) if automatic else a.save(p, fmt)
        ctx.check(got is a, lambda: f"{what}: save() returned {got!r}")
        kind = ps.container(path)
        if automatic:
            ctx.check(kind in ps.BY_ENDING[ending], lambda: f"{what}: the file is a {kind} file")
            ctx.event("automatic format")
            name = {"csv": "TEXT_CSV", "table": "TEXT_TAB_I", "repr": "TEXT_REPR", "json": "TEXT_JSON", "npz": "NUMPY_NPZ", "npy": "NUMPY_NPY", "pickle": "PYTHON_PICKLE"}[kind]
        else:
            ctx.check(kind == ps.CONTAINERS[name], lambda: f"{what}: the file is a {kind} file")
        b = (sumpf.Bands if r.random() < 0.5 else sumpf.Filter).load(p)
        ctx.check(isinstance(b, sumpf.Filter) and len(b) == n, lambda: f"{what}: loaded {b!r}")
        found = points(b)
        for i, (e, g) in enumerate(zip(values, found)):
            ctx.check(list(g) == sorted(e) and all(g[x] == e[x] for x in e), lambda: f"{what}: channel {i} has been loaded as {g}")
        ctx.event("bands restored")
        tfs = b.transfer_functions()
        if name in ("TEXT_REPR", "TEXT_JSON", "NUMPY_NPZ", "PYTHON_PICKLE"):
            for t, o in zip(tfs, a.transfer_functions()):
                ctx.check(t.interpolation == o.interpolation and t.extrapolation == o.extrapolation, lambda: f"{what}: loaded with the interpolations {[(x.interpolation, x.extrapolation) for x in tfs]}")
            ctx.event("interpolations restored")
            fs = numpy.array([10.0 ** r.uniform(0, 4.5) for _ in range(5)] + [100.0])
            # far away from the supporting points, the extrapolation of complex and real values is ill conditioned
            compare(ctx, what, a, b, fs, relative=1e-8, absolute=1e-9 * max([abs(y) for v in values for y in v.values()], default=0.0))
        if name in ("TEXT_CSV", "TEXT_REPR", "TEXT_JSON", "NUMPY_NPZ", "PYTHON_PICKLE"):
            ctx.check(b.labels() == a.labels(), lambda: f"{what}: loaded with the labels {b.labels()}")
            ctx.event("labels restored")
        elif name == "NUMPY_NPY":
            expected = tuple(f"{os.path.basename(path)} {i + 1}" for i in range(n))
            ctx.check(b.labels() == expected, lambda: f"{what}: loaded with the labels {b.labels()} instead of {expected}")
        ctx.sign("bands", name, ending, n, automatic, any(not v for v in values), len({tuple(v) for v in values}))


# ------------------------------------------------------------------ tables by other programs

def number(ctx, v):
    """a real number in one of the usual notations and its value"""
    r = ctx.rng
    k = r.randrange(7)
    if k == 0:
        s = repr(float(v))
    elif k == 1:
        s = f"{v:.3e}"
    elif k == 2:
        s = f"{v:.4E}"
        ctx.event("upper case exponent")
    elif k == 3:
        s = f"{v:.2f}"
    elif k == 4:
        s = str(int(v))
    elif k == 5:
        s = f"{int(v)}e{r.choice(('-', '', '+'))}{r.randint(0, 9)}"
    else:
        s = f"{v:g}"
    return s, float(s)


def table(ctx):
    r = ctx.rng
    delimiter = r.choice((",", ", ", "\t", " ", "   ", "|", " | ", "\t\t"))
    columns = r.choice((1, 1, 2, 3))
    notation = r.choice(("real", "real", "python", "i", "parentheses", "gnuplot", "mixed"))
    lines = []
    expected = [{} for _ in range(columns)]
    if r.random() < 0.5:
        lines.append(r.choice(("# frequency\tlevel", "; a comment", "#", "", "   ", "# 1.0\t2.0")))
    rows = r.randint(1, 8)
    used = set()
    most = 0
    for _ in range(rows):
        while True:
            f, fv = number(ctx, 10.0 ** r.uniform(0.0, 4.3))
            if fv not in used and fv > 0.0:
                break
        used.add(fv)
        cells = [f]
        width = columns if r.random() < 0.85 or not most else r.randint(1, columns)
        if most < columns:
            width = columns     # the number of columns is known from the first line on
        if width < columns:
            ctx.event("short line")
        most = max(most, width)
        for c in range(width):
            n = notation if notation != "mixed" else r.choice(("real", "python", "i", "parentheses", "gnuplot"))
            if r.random() < 0.1:
                cells.append(r.choice(("nan", "NaN", "{nan, nan}", "{NaN,NaN}")))
                ctx.event("missing value")
                continue
            re, rv = number(ctx, r.uniform(-50.0, 50.0))
            im, iv = number(ctx, r.uniform(0.0, 50.0))
            sign = r.choice("+-")
            cv = complex(rv, iv if sign == "+" else -iv)
            if n == "real":
                cells.append(re)
                cv = rv
            elif n in ("python", "i"):
                cells.append(f"{re}{sign}{im}{r.choice('jJ') if n == 'python' else r.choice('iI')}")
                ctx.event(f"{n} notation")
            elif n == "parentheses":
                space = r.choice(("", " ")) if delimiter.strip() or "\t" in delimiter else ""
                cells.append(f"({re}{space}{sign}{space}{im}{r.choice('jJiI')})")
                ctx.event("parentheses notation")
            else:
                space = r.choice(("", " "))
                cells.append(f"{{{re}{space},{space}{'-' if sign == '-' else ''}{im}}}")
                ctx.event("gnuplot notation")
            expected[c][fv] = cv
        line = delimiter.join(cells)
        if r.random() < 0.15:
            line = "  " + line + "  "
        if r.random() < 0.2:
            line += r.choice(("# comment 7.0", " ; 5.0", " #"))
            ctx.event("comment")
        lines.append(line)
        if r.random() < 0.1:
            lines.append(r.choice(("", "# comment", "; 1.0 2.0")))
    text = r.choice(("\n", "\n", "\r\n")).join(lines) + r.choice(("", "\n"))
    if delimiter.startswith(","):
        ctx.event("comma separated")
    if "|" in delimiter:
        ctx.event("pipe separated")
    with ps.Directory() as d:
        stem = ps.stem(ctx)
        path = os.path.join(d, stem + r.choice((".txt", ".dat", ".asc", ".tab")))
        with open(path, "w", newline="") as f:
            f.write(text)
        what = f"the table {text!r} named {os.path.basename(path)!r}"
        ctx.note(what)
        b = (sumpf.Bands if r.random() < 0.5 else sumpf.Filter).load(path)
        found = points(b)
        ctx.check(len(found) == columns, lambda: f"{what} has been read with {len(found)} channels: {found}")
        for c in range(columns):
            ctx.check(list(found[c]) == sorted(expected[c]), lambda: f"{what}: channel {c} has been read as {found[c]} instead of {expected[c]}")
            for f, v in expected[c].items():
                ctx.check(found[c][f] == v, lambda: f"{what}: channel {c} has been read as {found[c]} instead of {expected[c]}")
                ctx.check(b(f)[c] == v, lambda: f"{what}: the response of channel {c} at {f} Hz is {b(f)[c]!r} instead of {v!r}")
        ctx.check(b.labels() == tuple(f"{os.path.basename(path)} {i}" for i in range(1, columns + 1)), lambda: f"{what} has been read with the labels {b.labels()}")
        ctx.event("table read")
        ctx.sign("table", delimiter, notation, columns, "\r" in text)


def csv_table(ctx):
    r = ctx.rng
    columns = r.choice((1, 2, 3))
    header = r.random() < 0.6
    labels = gen.labels(ctx, columns)
    expected = [{} for _ in range(columns)]
    import csv
    import io
    s = io.StringIO()
    w = csv.writer(s, lineterminator=r.choice(("\n", "\r\n")))
    if header:
        w.writerow((r.choice(("frequency", "f in Hz")), *labels))
    for i in range(r.randint(1, 6)):
        f, fv = number(ctx, 10.0 ** r.uniform(0.0, 4.3))
        while fv in expected[0] or any(fv in e for e in expected):
            f, fv = number(ctx, 10.0 ** r.uniform(0.0, 4.3))
        row = [f]
        for c in range(columns):
            if r.random() < 0.1 and i:
                row.append("")
                ctx.event("missing value")
            elif r.random() < 0.5:
                x, v = number(ctx, r.uniform(-9.0, 9.0))
                row.append(x)
                expected[c][fv] = v
            else:
                v = complex(r.uniform(-9, 9), r.uniform(-9, 9))
                row.append(r.choice((repr(v), str(v).strip("()"))))
                expected[c][fv] = v
        w.writerow(row)
    if header and not any(expected) or header and labels and all(not e for e in expected):
        return
    with ps.Directory() as d:
        path = os.path.join(d, ps.stem(ctx) + ".csv")
        with open(path, "w", newline="") as f:
            f.write(s.getvalue())
        what = f"the CSV file {s.getvalue()!r} named {os.path.basename(path)!r}"
        b = sumpf.Filter.load(path)
        found = points(b)
        ctx.check(len(found) == columns and all(list(g) == sorted(e) and all(g[f] == e[f] for f in e) for g, e in zip(found, expected)), lambda: f"{what} has been read as {found} instead of {expected}")
        names = labels if header else tuple(f"{os.path.basename(path)} {i}" for i in range(1, columns + 1))
        ctx.check(b.labels() == tuple(names), lambda: f"{what} has been read with the labels {b.labels()} instead of {names}")
        ctx.event("table read")
        ctx.sign("csv table", columns, header)


def faults(ctx):
    r = ctx.rng
    k = r.randrange(4)
    with ps.Directory() as d:
        if k < 2:
            if r.random() < 0.5:
                values = make_bands(ctx)
                a = sumpf.Bands(bands=values, labels=gen.labels(ctx, len(values)))
                fmt = r.choice(ps.formats(sumpf.Bands))
                name = ps.name_of(sumpf.Bands, fmt)
            else:
                a = standard(ctx)
                fmt = r.choice(ps.formats(F))
                name = ps.name_of(F, fmt)
            path = os.path.join(d, "x" + r.choice(ps.ENDINGS[sumpf.Bands] + ("", ".wav")))
            a.save(path, fmt)
            with open(path, "rb") as f:
                content = f.read()
            size = len(content)
        if k == 0:
            if name == "NUMPY_NPY":
                return
            os.remove(path)
            limit = r.choice((0, size - 1, r.randrange(size), r.randrange(size)))
            try:
                with ps.FullDisk(limit):
                    a.save(path, fmt)
            except Exception:       # pylint: disable=broad-except; the kind of error depends on the library
                ctx.event("full disk reported")
            else:
                ctx.fail(f"saving {gen.describe(a)} as {name} ({size} bytes) on a disk with {limit} bytes has not raised an error")
            ctx.sign("full", name, limit == 0)
        elif k == 1:
            if name not in ("TEXT_JSON", "TEXT_REPR", "NUMPY_NPZ", "NUMPY_NPY", "PYTHON_PICKLE"):
                return
            keep = r.choice((0, 1, 4, 12, size - 1, r.randrange(size), r.randrange(size)))
            keep = min(keep, size - 1)
            with open(path, "wb") as f:
                f.write(content[0:keep])
            rejected(ctx, path, f"{gen.describe(a)} saved as {name} in {os.path.basename(path)!r} and truncated from {size} to {keep} bytes", a)
            ctx.sign("truncated", name, keep < 13)
        elif k == 2:
            content, kind = ps.garbage(ctx)
            path = os.path.join(d, ps.stem(ctx) + r.choice(ps.ENDINGS[sumpf.Signal] + ps.ENDINGS[sumpf.Bands] + ps.OTHER_ENDINGS))
            with open(path, "wb") as f:
                f.write(content)
            rejected(ctx, path, f"a foreign file ({kind}: {content[0:40]!r}) named {os.path.basename(path)!r}")
            rejected(ctx, path + "missing", "a missing file")
            ctx.sign("foreign", kind, os.path.splitext(path)[1])
        else:
            # a filter, that does not consist of bands, cannot be saved as a table
            a = F(transfer_functions=(F.Bands(xs=(1.0, 2.0), ys=(3.0, 4.0), interpolation=I.LINEAR, extrapolation=I.ZERO), F.Constant(r.uniform(1, 2)))[::r.choice((1, -1))])
            path = os.path.join(d, "x" + r.choice((".csv", ".npy", ".npz", ".dat", ".foo", "")))
            try:
                a.save(path)
            except ValueError:
                ctx.event("rejected")
            else:
                ctx.fail(f"saving a filter, that does not consist of bands only, in {os.path.basename(path)} has not raised an error")
            ctx.sign("not bands", os.path.splitext(path)[1])


def rejected(ctx, path, what, allowed=None):
    try:
        got = sumpf.Filter.load(path)
    except ValueError:
        ctx.event("rejected")
        return
    except Exception as e:      # pylint: disable=broad-except
        ctx.fail(f"loading {what} has raised {type(e).__name__}: {e} instead of a ValueError")
    ctx.check(allowed is not None and got == allowed, lambda: f"{what} has been loaded as {got!r}")


SCENARIOS = [("filters", filters, 2500, 20000), ("bands", bands, 2500, 20000), ("table", table, 2500, 20000), ("csv table", csv_table, 500, 4000), ("faults", faults, 1200, 10000)]
