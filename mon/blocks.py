"""Histories of inputs of the blocks with multiple inputs (Merge, Concatenate) and the reference model of the inputs."""
import connectors
import sumpf
from . import gen


class Source:
    """an upstream block, whose value can be changed"""

    def __init__(self, value):
        self.value = value
        self.computed = 0

    @connectors.Output()
    def output(self):
        self.computed += 1
        return self.value

    @connectors.Input("output")
    def set_value(self, value):
        self.value = value
        return self


class Uncached(Source):
    """an upstream block without caching"""

    @connectors.Output(caching=False)
    def output(self):
        self.computed += 1
        return self.value


class History:
    """Performs random steps on the block and keeps the list of the data sets, that the block has to contain afterwards."""

    def __init__(self, ctx, block, create, initial=()):
        self.ctx, self.block, self.create = ctx, block, create
        # entries: [kind, handle, data]; a connection, that has not been requested, yet, has the kind "pending"
        self.entries = [["initial", None, d] for d in initial]
        self.pending = []
        self.sources = []
        self.removed = []
        self.log = []

    def flush(self):
        for s in self.pending:
            self.entries.append(["connected", s, None])
        self.pending = []

    def data(self):
        """the data sets, that are currently added, in the order of addition"""
        self.flush()
        return [e[1].value if e[0] == "connected" else e[2] for e in self.entries]

    def step(self):
        ctx, r = self.ctx, self.ctx.rng
        added = [e for e in self.entries if e[0] == "added"]
        connected = [e for e in self.entries if e[0] == "connected"]
        choices = ["add", "add", "connect"]
        if added:
            choices += ["replace", "remove", "replace", "remove"]
        if connected or self.pending:
            choices += ["change", "change", "disconnect"]
        k = r.choice(choices)
        self.log.append(k)
        if k == "add":
            d = self.create()
            self.flush()
            i = self.block.add(d)
            ctx.check(all(e[1] != i for e in self.entries if e[0] == "added"), lambda: f"add() returned the ID {i}, which is already in use")
            self.entries.append(["added", i, d])
        elif k == "replace":
            e = r.choice(added)
            e[2] = self.create()
            got = self.block.replace(e[1], e[2])
            ctx.check(got == e[1], lambda: f"replace({e[1]}) returned {got!r}")
        elif k == "remove":
            e = r.choice(added)
            got = self.block.remove(e[1])
            ctx.check(got is self.block, lambda: f"remove() returned {got!r}")
            self.entries.remove(e)
        elif k == "connect":
            if self.sources and r.random() < 0.3 and any(s not in self.pending and all(e[1] is not s for e in self.entries) for s in self.sources):
                s = r.choice([s for s in self.sources if s not in self.pending and all(e[1] is not s for e in self.entries)])
                k = "reconnect"
            else:
                s = r.choice((Source, Source, Uncached))(self.create())
                self.sources.append(s)
            if r.random() < 0.5:
                self.block.add.connect(s.output)
            else:
                s.output.connect(self.block.add)
            self.pending.append(s)
        elif k == "change":
            s = r.choice([e[1] for e in connected] + self.pending)
            s.set_value(self.create())
        elif k == "disconnect":
            s = r.choice([e[1] for e in connected] + self.pending)
            # the Connectors package loses pending changes of other connections, when disconnecting, so they are requested before
            self.flush()
            try:
                self.block.output()
            except Exception:       # pylint: disable=broad-except; the current inputs can be incompatible
                pass
            self.block.add.disconnect(s.output)
            self.entries = [e for e in self.entries if e[1] is not s]
        ctx.event(k)


def kind(x):
    for cls in (sumpf.Signal, sumpf.Spectrum, sumpf.Spectrogram, sumpf.Filter):
        if isinstance(x, cls):
            return cls
    return type(x)


def describe(datas):
    return "[" + ", ".join(gen.describe(d) for d in datas) + "]"
