"""S18: audio playback and recording are sample-exact."""
import gc
import math
import threading
import time
import numpy
import sumpf
from . import blocks
from . import gen
from . import jackd

PROPERTY = "S18"
RULE = ("the unchanged Jack class and the real JACK-Client package run against a simulated server, that replaces the C library (ports, connection graph, process cycles); random histories of runs, changed "
        "signals, added and removed ports, connections by all kinds of specifiers, (de)activations, other clients, xruns and changes of the sampling rate are performed, while monitors record the buffers of all "
        "ports in each process cycle; the streams are compared with the signals and the recordings with the received blocks, the connection graph with a reference model; also with a server, that runs in its own "
        "thread and deactivates clients with a delay, and (thorough) with the real server.  Distinct by the relation of the length to the block size, channel counts, ports, mode and the last steps of the history")
ASSUMPTIONS = ["the simulated server behaves like JACK2 in the aspects described in mon/jackd.py", "the samples are exact in single precision, or compared after rounding them to single precision, which is JACK's format",
               "the recording starts with the first process cycle after start(); starting again during a recording starts from the beginning",
               "changing ports during a recording, and reading the output after changing the signal or ports without starting again are not judged",
               "connections belong to the channel of an output port, when the signal is replaced; connections, that have been requested by name for a deactivated client, need a port with this name until the activation"]
REQUIRED = ["run", "length 0", "length < block", "length = block", "length multiple of the block", "length not multiple of the block", "recording ports", "no recording ports", "loopback", "external source", "external sink",
            "mixed sources", "restart during a recording", "repeated run", "changed signal, same ports", "changed signal, new ports", "less channels", "add port", "remove port", "remove connected port", "duplicate port rejected",
            "unknown port rejected", "connect while inactive", "connect while active", "connection restored", "externally disconnected", "deactivate", "activate", "auto deactivated", "stays active", "toggle auto deactivation",
            "xrun", "xrun during a recording", "sampling rate changed", "silence after the end", "idle silence", "generated port name", "same short name in another client", "destroyed", "shutdown",
            "threaded run", "output waited", "input waited", "delayed deactivation", "port connectors", "output connected"]
CASE_TIMEOUT = 40


def length_for(ctx, block):
    r = ctx.rng
    k = r.choice(("zero", "short", "block", "multiple", "other", "other", "off by one"))
    if k == "zero":
        length = 0
    elif k == "short":
        length = r.randint(1, block - 1)
    elif k == "block":
        length = block
    elif k == "multiple":
        length = block * r.randint(2, 5)
    elif k == "off by one":
        length = max(0, block * r.randint(1, 4) + r.choice((-1, 1)))
    else:
        length = r.randint(block + 1, 6 * block)
    ctx.event("length 0" if length == 0 else "length < block" if length < block else "length = block" if length == block else "length multiple of the block" if length % block == 0 else "length not multiple of the block")
    return length


NAMES = ("a", "b", "left", "right", "out 1", "x:y", "output_1", "output_2", "ü", "", "a", "playback_1")


def signal(ctx, block, channels=None, labels=None, counter=None):
    """a signal, whose samples are unique and not zero"""
    r = ctx.rng
    c = channels or r.choice((1, 1, 2, 3, 4))
    n = length_for(ctx, block)
    start = 1 if counter is None else counter
    x = start + numpy.arange(c * n, dtype=float).reshape(c, n)
    k = r.choice(("float64", "float32", "int", "fraction"))
    if k == "float32":
        x = x.astype(numpy.float32)
    elif k == "int":
        x = x.astype(numpy.int64)
    elif k == "fraction":
        x = x / 3.0
    if labels is None:
        labels = tuple(r.choice(NAMES) for _ in range(c))
    return sumpf.Signal(channels=x, sampling_rate=r.choice((48000.0, 44100.0, 1.0)), offset=r.choice((0, 0, -3, 5, 1000)), labels=labels)


class Model:
    """the reference model of the client's ports and connections and the monitors of the port buffers"""

    def __init__(self, ctx, server, name, block):
        self.ctx, self.server, self.name, self.block = ctx, server, name, block
        self.signal = None
        self.inports = []           # names
        self.connections = set()    # ((kind, channel or name), (kind, name))
        self.active = False
        self.auto = True
        self.by_name = False
        self.cycles = []            # what has been observed in each process cycle: {channel: block}, {input port: block}
        self.generated = {}
        self.clock = 0
        self.xruns = 0
        server.before, server.processed = self.before, self.processed

    def before(self):
        """writes unique samples to the ports of the other clients"""
        for k, p in enumerate([p for p in self.server.ports.values() if p.client.name in ("ext", "zext") and not p.is_input]):
            p.buffer[0:self.block] = (k + 1) * 2**18 + (self.clock + numpy.arange(self.block)) % 2**18
            self.generated[p.full()] = p.buffer[0:self.block].copy()
        self.clock += self.block

    def ports(self, is_input):
        return [p for p in self.jack_ports() if p.is_input == is_input]

    def jack_ports(self):
        return [p for p in self.server.ports.values() if p.client.name == self.name]

    def processed(self, client):
        if client.name != self.name:
            return
        self.cycles.append(({p.name: p.buffer[0:self.block].copy() for p in self.jack_ports() if not p.is_input},
                            {p.name: self.server.buffer(p)[0:self.block].copy() for p in self.jack_ports() if p.is_input}))
        for name, b in self.generated.items():
            p = self.server.find(name)
            if p is not None and not numpy.array_equal(p.buffer[0:self.block], b):
                self.corrupted = name

    corrupted = None

    def channel_names(self):
        return [p.name for p in self.server.ports.values() if p.client.name == self.name and not p.is_input]

    def graph(self):
        """the expected graph"""
        if not self.active:
            return []
        outs = self.outnames
        result = []
        for s, d in self.connections:
            result.append((f"{self.name}:{outs[s[1]]}" if s[0] == "own" else s[1], f"{self.name}:{d[1]}" if d[0] == "own" else d[1]))
        return sorted(result)

    def verify_ports(self, j, what):
        """compares the ports and the connections with the model"""
        ctx = self.ctx
        ins = [p.shortname for p in j._client.inports]        # pylint: disable=protected-access; only for keeping the order
        got_in = sorted(p.name for p in self.jack_ports() if p.is_input)
        ctx.check(got_in == sorted(self.inports) and j.input_ports() == self.inports and ins == self.inports, lambda: f"{what}: input ports {j.input_ports()}, registered {got_in}, expected {self.inports}")
        outs = [p.shortname for p in j._client.outports]      # pylint: disable=protected-access
        got_out = sorted(p.name for p in self.jack_ports() if not p.is_input)
        ctx.check(sorted(outs) == got_out and len(outs) == len(self.signal), lambda: f"{what}: output ports {got_out} for the labels {self.signal.labels()}")
        labels = self.signal.labels()
        for i, (label, o) in enumerate(zip(labels, outs)):
            if label and labels.count(label) == 1 and not label.startswith("output_"):
                ctx.check(o == label, lambda i=i, o=o: f"{what}: the port of channel {i} is named {o!r}, labels {labels}")
            elif not label:
                ctx.event("generated port name")
                ctx.check(o.startswith("output_"), lambda i=i, o=o: f"{what}: the port of channel {i} is named {o!r}, labels {labels}")
        self.outnames = outs
        got = self.server.graph(self.name)
        ctx.check(got == self.graph(), lambda: f"{what}: the connections in the server are {got}, expected {self.graph()}")
        me = [c for c in self.server.clients.values() if c.name == self.name]
        ctx.check(len(me) == 1 and me[0].active == self.active, lambda: f"{what}: the client is {'active' if me and me[0].active else 'not active'}")
        ctx.check(not self.server.stale, lambda: f"{what}: a port has been accessed after it had been removed: {self.server.stale[:5]}")
        ctx.check(self.corrupted is None, lambda: f"{what}: the buffer of {self.corrupted} has been overwritten")


def run_cycles(server, n):
    for _ in range(n):
        server.cycle()


def setup(ctx, threaded=False):
    gc.collect()
    r = ctx.rng
    block = r.choice((2, 4, 16, 64, 256))
    server = jackd.Server(block, r.choice((48000, 44100, 8000))).install()
    return server, block


def history(ctx):   # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    r = ctx.rng
    server, block = setup(ctx)
    jackd.Server.simulated_time(sumpf._blocks._jack, lambda d: run_cycles(server, math.ceil(d * server.samplerate / block)))   # pylint: disable=protected-access
    decoy = None
    if r.random() < 0.3:    # ports with the same short names in another client, that has been started before
        decoy = server.external("decoy", inputs=["a", "in", "capture_1", "r"], outputs=["a", "b", "output_1", "left"])
        ctx.event("same short name in another client")
    if r.random() < 0.5:
        ext = server.external("ext", inputs=["sink", "sink2"], outputs=["source", "source2"])
    m = Model(ctx, server, "T", block)
    m.auto = r.random() < 0.5
    m.signal = signal(ctx, block)
    m.inports = [n for n in ("r", "in", "capture_1", "s p") if r.random() < 0.4]
    m.active = not m.auto
    counter = 100000
    j = sumpf.Jack("T", input_signal=m.signal, input_ports=tuple(m.inports), auto_deactivate=m.auto)
    # an external client, whose ports are created after the ones of the tested client
    if not any(c.name == "ext" for c in server.clients.values()):
        ext = server.external("ext", inputs=["sink", "sink2"], outputs=["source", "source2"])   # noqa; pylint: disable=unused-variable
    m.verify_ports(j, "after the instantiation")
    log = []
    runs = 0
    for _ in range(r.randint(4, 9 if ctx.tier == "quick" else 20)):
        k = r.choice(["run", "run", "input", "input", "connect", "connect", "connect", "add", "remove", "active", "auto", "disconnect", "xrun", "rate", "idle"])
        log.append(k)
        what = f"block {block}, {gen.describe(m.signal)}, history {log}"
        if k == "input":
            labels = None
            channels = None
            if m.by_name or r.random() < 0.3:
                channels, labels = len(m.signal), m.signal.labels()
            old = len(m.signal)
            m.signal = signal(ctx, block, channels=channels, labels=labels, counter=counter)
            counter += 10000
            got = j.input(m.signal)
            ctx.check(got is j, lambda: f"{what}: input() returned {got!r}")
            m.connections = {c for c in m.connections if c[0][0] != "own" or c[0][1] < len(m.signal)}
            if len(m.signal) < old:
                ctx.event("less channels")
            ctx.event("changed signal, same ports" if labels else "changed signal, new ports")
        elif k == "connect":
            sources = [("own", i) for i in range(len(m.signal))] + [("ext", "ext:source"), ("ext", "ext:source2")]
            sinks = [("own", n) for n in m.inports] + [("ext", "ext:sink"), ("ext", "ext:sink2")]
            s, d = r.choice(sources), r.choice(sinks)
            if s[0] == "own" and d[0] == "own" and r.random() < 0.5:
                s = ("own", min(1, len(m.signal) - 1))
            if s[0] == "ext" and d[0] == "ext":
                continue
            name = False
            if s[0] == "own":
                o = m.outnames[s[1]]
                spec = r.choice(("index", "short", "full", "port"))
                source = {"index": s[1], "short": o, "full": f"T:{o}", "port": j._client.outports[s[1]]}[spec]    # pylint: disable=protected-access
                name = spec != "index"
            else:
                source = s[1]
            if d[0] == "own":
                i = m.inports.index(d[1])
                sink = r.choice((i, d[1], f"T:{d[1]}", j._client.inports[i]))      # pylint: disable=protected-access
            else:
                sink = d[1]
            got = j.connect(source, sink)
            ctx.check(got is j, lambda: f"{what}: connect() returned {got!r}")
            m.connections.add((s, d))
            if not m.active and name:
                m.by_name = True
            ctx.event("connect while active" if m.active else "connect while inactive")
            if s[0] == "own" and d[0] == "own":
                ctx.event("loopback")
            elif s[0] == "ext":
                ctx.event("external source")
            else:
                ctx.event("external sink")
            if r.random() < 0.1:
                bad = r.choice((("nothing", 0), (0, "nothing"), ("T:", 0), (None, 0), (0, 1.5)))
                try:
                    j.connect(*bad)
                except (ValueError, IndexError):
                    ctx.event("unknown port rejected")
                else:
                    ctx.fail(f"{what}: connect{bad} did not raise an error")
        elif k == "add":
            n = r.choice([n for n in ("r", "in", "capture_1", "s p") + tuple(f"q{i}" for i in range(20)) if n not in m.inports])
            got = j.add_input_port(n)
            ctx.check(got == n, lambda: f"{what}: add_input_port returned {got!r}")
            m.inports.append(n)
            ctx.event("add port")
            if r.random() < 0.2:
                try:
                    j.add_input_port(n)
                except Exception:       # pylint: disable=broad-except; jack.JackError
                    ctx.event("duplicate port rejected")
                else:
                    ctx.fail(f"{what}: a port has been added twice")
        elif k == "remove" and m.inports:
            i = r.randrange(len(m.inports))
            n = m.inports[i]
            got = j.remove_input_port(r.choice((i, n, f"T:{n}", j._client.inports[i])))    # pylint: disable=protected-access
            ctx.check(got is j, lambda: f"{what}: remove_input_port returned {got!r}")
            m.inports.remove(n)
            if any(c[1] == ("own", n) for c in m.connections):
                ctx.event("remove connected port")
            m.connections = {c for c in m.connections if c[1] != ("own", n)}
            ctx.event("remove port")
        elif k == "active":
            if m.active:
                j.deactivate()
                m.active = False
                ctx.event("deactivate")
            else:
                j.activate()
                m.active = True
                m.by_name = False
                ctx.event("activate")
                if m.connections:
                    ctx.event("connection restored")
        elif k == "auto":
            m.auto = not m.auto
            j.auto_deactivate(m.auto)
            m.active = m.active and not m.auto
            ctx.event("toggle auto deactivation")
        elif k == "disconnect" and m.active and m.connections:
            # another program removes a connection
            s, d = c = r.choice(sorted(m.connections, key=repr))
            server.jack_disconnect(None, (f"T:{m.outnames[s[1]]}" if s[0] == "own" else s[1]).encode(), (f"T:{d[1]}" if d[0] == "own" else d[1]).encode())
            m.connections.remove(c)
            ctx.event("externally disconnected")
        elif k == "xrun":
            delay = r.choice((0, 1, 100, 12345, 2500000))
            server.report_xrun(delay)
            m.xruns += 1
            n, x = j.xruns()
            ctx.check(n == m.xruns and abs(x.delay - delay * 1e-6) < 1e-9 and x.stop - x.start == block, lambda: f"{what}: the xrun {m.xruns} with {delay} us is reported as {n}, {x}")
            ctx.event("xrun")
        elif k == "rate":
            server.set_sampling_rate(r.choice((44100, 48000, 96000, 8000)))
            ctx.check(j.sampling_rate() == server.samplerate, lambda: f"{what}: sampling rate {j.sampling_rate()}")
            ctx.event("sampling rate changed")
        elif k == "idle":
            m.cycles.clear()
            run_cycles(server, r.randint(1, 3))
            ctx.check(len(m.cycles) > 0 or not m.active, lambda: f"{what}: the active client has not been processed")
            for outs, _ in m.cycles:
                ctx.event("idle silence")
                ctx.check(all(not b.any() for b in outs.values()), lambda: f"{what}: sent while idle: {outs}")
        elif k == "run":
            runs += 1
            run(ctx, server, j, m, block, what)
            if runs > 1:
                ctx.event("repeated run")
        m.verify_ports(j, what)
    ctx.sign(block, len(m.signal), len(m.inports), m.auto, m.active, decoy is not None, tuple(log[-3:]))
    if r.random() < 0.2:
        server.shut_down()
        m.active = False
        ctx.event("shutdown")
    got = None      # noqa; it can be a reference to the instance
    del j
    gc.collect()
    left = [p.full() for p in server.ports.values() if p.client.name == "T"]
    ctx.check(not left and all(c.name != "T" for c in server.clients.values()), lambda: f"block {block}: the deleted instance left the ports {left}")
    ctx.check(not server.stale, lambda: f"the deleted instance accessed removed ports: {server.stale[:5]}")
    ctx.event("destroyed")


def stream(blocks, n):
    return numpy.concatenate(blocks)[0:n] if blocks else numpy.zeros(0)


def run(ctx, server, j, m, block, what):  # pylint: disable=too-many-arguments
    """plays back and records the signal and verifies the buffers of all cycles"""
    r = ctx.rng
    length = m.signal.length()
    needed = math.ceil(length / block) + 1
    if not m.active:
        m.by_name = False
        if m.connections:
            ctx.event("connection restored")
    got = j.start()
    ctx.check(got is j, lambda: f"{what}: start() returned {got!r}")
    m.active = True
    if r.random() < 0.15 and length > block:
        run_cycles(server, r.randint(0, needed - 2))
        j.start()
        ctx.event("restart during a recording")
    m.cycles.clear()
    m.verify_ports(j, f"{what}: after the start")
    for c in range(needed):
        if r.random() < 0.1 and c < needed - 1:
            delay = r.randint(1, 10**6)
            server.report_xrun(delay)
            m.xruns += 1
            n, x = j.xruns()
            ctx.check(n == m.xruns and (x.start, x.stop) == (c * block, (c + 1) * block) and abs(x.delay - delay * 1e-6) < 1e-9,
                      lambda c=c: f"{what}: the xrun {m.xruns} with {delay} us at block {c} of {block} is reported as {n}, {x}")
            ctx.check(str(x.start) in str(x) and str(x.stop) in str(x) and str(x.delay) in str(x), lambda: f"{what}: the xrun is described as {x}")
            ctx.event("xrun during a recording")
        server.cycle()
    m.active = not m.auto
    extra = r.randint(0, 3)
    run_cycles(server, extra)
    ctx.event("auto deactivated" if m.auto else "stays active")
    m.verify_ports(j, f"{what}: after the recording")
    ctx.check(len(m.cycles) == needed + (0 if m.auto else extra), lambda: f"{what}: the client has been processed in {len(m.cycles)} of {needed} cycles and {extra} afterwards")
    result = j.output()
    # the playback
    observed = len(m.cycles)
    for i, (name, channel) in enumerate(zip(m.outnames, m.signal.channels())):
        sent = numpy.concatenate([c[0][name] for c in m.cycles])
        expected = numpy.zeros(observed * block, dtype=numpy.float32)
        expected[0:length] = channel
        ctx.check(numpy.array_equal(sent, expected), lambda i=i, s=sent, e=expected: f"{what}: sent on channel {i} from sample {int(numpy.nonzero(s != e)[0][0])} on: {s[s != e][:4]} instead of {e[s != e][:4]}")
        ctx.event("silence after the end")
    # the recording
    got = f"{what}: recorded {gen.describe(result)}"
    ctx.check(result.channels().shape == (len(m.inports), length), lambda: got)
    ctx.check(result.offset() == m.signal.offset() and result.sampling_rate() == server.samplerate and result.labels() == tuple(m.inports), lambda: got)
    for i, name in enumerate(m.inports):
        received = numpy.concatenate([c[1][name] for c in m.cycles])[0:length]
        recorded = result.channels()[i]
        ctx.check(numpy.array_equal(recorded, received), lambda i=i, a=recorded, b=received: f"{what}: recorded on channel {i} from sample {int(numpy.nonzero(a != b)[0][0])} on: {a[a != b][:4]} instead of {b[a != b][:4]}")
        sources = [c for c in m.connections if c[1] == ("own", name)]
        if len(sources) > 1:
            ctx.event("mixed sources")
        if len(sources) == 1 and sources[0][0][0] == "own":
            channel = m.signal.channels()[sources[0][0][1]].astype(numpy.float32)
            ctx.check(numpy.array_equal(recorded, channel), lambda i=i: f"{what}: the recording of the loopback is not the signal")
    ctx.event("recording ports" if m.inports else "no recording ports")
    again = j.output()
    ctx.check(again == result and not numpy.shares_memory(numpy.zeros(1), again.channels()), lambda: f"{what}: output() changed from {gen.describe(result)} to {gen.describe(again)}")
    ctx.sign("run", block, (length > 0) + (length > block), length % block == 0, len(m.signal), len(m.inports), m.auto)
    ctx.event("run")
    ctx.event("process cycles", observed)


def threaded(ctx):  # pylint: disable=too-many-locals,too-many-statements
    """the server runs in its own thread and deactivates the clients with a delay"""
    r = ctx.rng
    server, block = setup(ctx)
    stop = threading.Event()
    pace = r.choice((0.0, 0.0002, 0.001))
    server.deactivation_delay = r.choice((0.0, 0.0005, 0.003))
    if server.deactivation_delay:
        ctx.event("delayed deactivation")

    def sleep(d):
        end = server.time + math.ceil(d * server.samplerate / block)
        while server.time < end and not stop.is_set():
            time.sleep(0.0001)

    jackd.Server.simulated_time(sumpf._blocks._jack, sleep)     # pylint: disable=protected-access
    name = "T"
    auto = r.random() < 0.7
    streams, entered = [], [None]

    def processed(client):
        if client.name == name:
            streams.append([p.buffer[0:block].copy() for p in server.ports.values() if p.client is client and not p.is_input])

    def serve():
        while not stop.is_set():
            server.cycle()
            time.sleep(pace)

    server.processed = processed
    c = r.randint(1, 3)
    current = signal(ctx, block, channels=c)
    counter = 100000
    played = []
    j = sumpf.Jack(name, input_signal=current, input_ports=[f"r{i}" for i in range(c)], auto_deactivate=auto)
    for i in range(c):
        j.connect(i, i)
    thread = threading.Thread(target=serve, daemon=True)
    thread.start()
    log = []
    try:
        for _ in range(r.randint(2, 6)):
            # the connector's result must not be given back before the end of the recording
            what = f"threaded, block {block}, pace {pace}, deactivation delay {server.deactivation_delay}, auto {auto}, {gen.describe(current)}, history {log}"
            j.start()
            played.append(current)
            k = r.choice(("output", "output", "input", "input", "toggle"))
            log.append(k)
            if k == "output":
                result = j.output()
                ctx.check(numpy.array_equal(result.channels(), current.channels().astype(numpy.float32)), lambda: f"{what}: recorded {gen.describe(result)}")
                ctx.check(result.offset() == current.offset() and result.labels() == tuple(f"r{i}" for i in range(c)), lambda: f"{what}: recorded {gen.describe(result)}")
                ctx.event("output waited")
            elif k == "input":
                old = current
                current = signal(ctx, block, channels=c, counter=counter)
                counter += 10000
                j.input(current)
                if old.length() == current.length() and old.offset() == current.offset():
                    result = j.output()
                    ctx.check(numpy.array_equal(result.channels(), old.channels().astype(numpy.float32)), lambda: f"{what}: recorded {gen.describe(result)} after setting the next signal")
                ctx.event("input waited")
            else:
                auto = True
                j.auto_deactivate(True)
                ctx.check(not server.clients[server.base].active, lambda: f"{what}: the client is still active")
            ctx.event("threaded run")
        j.start()
        played.append(current)
        result = j.output()
        ctx.check(numpy.array_equal(result.channels(), current.channels().astype(numpy.float32)), lambda: f"{what}: finally recorded {gen.describe(result)}")
        sleep(3 * block / server.samplerate)
    finally:
        stop.set()
        thread.join()
    # every sample has been sent exactly once and in order
    for i in range(c):
        sent = numpy.concatenate([s[i] for s in streams if len(s) == c]) if streams else numpy.zeros(0)
        expected = numpy.concatenate([p.channels()[i].astype(numpy.float32) for p in played])
        got = sent[sent != 0]
        ctx.check(numpy.array_equal(got, expected), lambda i=i, g=got, e=expected: f"{what}: {len(g)} samples have been sent on channel {i} in {len(played)} runs, {len(e)} expected: {gen.diff(g, e) if g.shape == e.shape else ''}")
    ctx.check(not server.stale, lambda: f"{what}: a removed port has been accessed: {server.stale[:5]}")
    ctx.event("process cycles", len(streams))
    ctx.sign("threaded", block, c, auto, pace, server.deactivation_delay > 0, tuple(log[-3:]))
    del j
    gc.collect()


def connected(ctx):
    """the connectors for the ports and for the recorded signal"""
    r = ctx.rng
    server, block = setup(ctx)
    jackd.Server.simulated_time(sumpf._blocks._jack, lambda d: run_cycles(server, math.ceil(d * server.samplerate / block)))   # pylint: disable=protected-access
    port = blocks.Source("p0")
    current = signal(ctx, block, channels=1)
    j = sumpf.Jack("C", input_signal=current, auto_deactivate=r.random() < 0.5)
    j.add_input_port.connect(port.output)
    merge = sumpf.Merge()
    j.output.connect(merge.add)
    ctx.check(j.input_ports() == ["p0"], lambda: f"input ports {j.input_ports()}")
    j.connect(0, 0)
    log = []
    for i in range(r.randint(1, 5)):
        k = r.choice(("signal", "port", "again"))
        log.append(k)
        if k == "signal":
            current = signal(ctx, block, channels=1, counter=1000 * (i + 1))
            j.input(current)
        elif k == "port":
            port.set_value(f"p{i + 1}")
            ctx.check(j.input_ports() == [f"p{i + 1}"], lambda i=i: f"the port has been renamed to p{i + 1}, but the ports are {j.input_ports()}, history {log}")
            j.connect(0, 0)
            ctx.event("port connectors")
        j.start()
        run_cycles(server, math.ceil(current.length() / block) + 2)
        result = r.choice((j, merge)).output()
        ctx.check(numpy.array_equal(result.channels(), current.channels().astype(numpy.float32)) and result.offset() == current.offset() and result.labels() == tuple(j.input_ports()),
                  lambda: f"block {block}: {gen.describe(current)} has been recorded as {gen.describe(result)}, history {log}")
        ctx.event("output connected")
    port.output.disconnect(j.add_input_port)
    ctx.check(j.input_ports() == [], lambda: f"the port is still there: {j.input_ports()}")
    ctx.check(not server.stale, lambda: f"a removed port has been accessed: {server.stale[:5]}")
    ctx.sign("connected", tuple(log))
    merge = None
    del j
    gc.collect()


SCENARIOS = [("history", history, 2000, 40000), ("threaded", threaded, 300, 4000), ("connected", connected, 150, 2000)]
THOROUGH = 1
QUICK = 1
WORKERS = {"quick": 4, "thorough": 8}
BUDGET = {"quick": 200, "thorough": 1200}
