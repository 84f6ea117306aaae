"""A simulated JACK server.

The library object of the JACK-Client package (the real Python wrapper, that SuMPF uses) is replaced by an object, that implements the functions of the JACK library in this process: clients, ports, the
connection graph and process cycles, that are driven by the harness.  Like the real server (JACK2), it does not clear port buffers between cycles, hands the buffer of a connected output port to an input port
with one connection, refuses connections of inactive clients, disconnects ports, when they are unregistered or their client is deactivated, reuses the lowest free port number, and deactivates a client, whose
process callback returned an error.  Every access to a port, that does not exist (anymore), is recorded."""
import errno
import threading
import time
import numpy
import jack

ffi = jack._ffi     # pylint: disable=protected-access
REAL = jack._lib    # pylint: disable=protected-access
AUDIO = b"32 bit float mono audio"
MAXBLOCK = 4096


class Port:
    def __init__(self, number, client, name, flags):
        self.number, self.client, self.name, self.flags = number, client, name, flags
        self.buffer = numpy.zeros(MAXBLOCK, dtype=numpy.float32)
        self.cname = ffi.new("char[]", self.full().encode())
        self.cshort = ffi.new("char[]", name.encode())

    def full(self):
        return f"{self.client.name}:{self.name}"

    @property
    def is_input(self):
        return bool(self.flags & REAL.JackPortIsInput)


class Client:
    def __init__(self, number, name):
        self.number, self.name = number, name
        self.active = False
        self.process = self.xrun = self.samplerate = self.shutdown = None
        self.cname = ffi.new("char[]", name.encode())
        self.cycles = 0


class Server:
    """the simulated server; it is used as the library object of the JACK-Client package"""
    count = 1
    removed = None

    def __init__(self, blocksize=64, samplerate=48000):
        self.blocksize, self.samplerate = blocksize, samplerate
        self.clients, self.ports = {}, {}
        self.connections = []       # (output port's number, input port's number) in the order of their creation
        self.lock = threading.RLock()
        self.stale = []             # calls for ports, that do not exist
        self.keep = []
        self.audio = ffi.new("char[]", AUDIO)
        self.xrun_delay = 0.0
        self.delay = 0.0
        self.deactivation_delay = 0.0
        self.log = None
        self.before = self.after = self.processed = None
        self.time = 0       # number of the finished cycles
        self.base = Server.count * 1000     # clients and ports of different servers cannot be confused
        Server.count += 1

    def __getattr__(self, name):
        if name.startswith("jack_"):
            raise AttributeError(f"the simulated server does not implement {name}")
        return getattr(REAL, name)

    def install(self):
        jack._lib = self    # pylint: disable=protected-access
        return self

    # helper methods

    def _client(self, ptr):
        return self.clients.get(int(ffi.cast("intptr_t", ptr)))

    def _port(self, ptr, call):
        if ptr == ffi.NULL:
            return None
        number = int(ffi.cast("intptr_t", ptr))
        port = self.ports.get(number)
        if port is None and call == "name" and self.removed is not None and self.removed.number == number:
            return self.removed     # the wrapper asks for the name right after unregistering a port
        if port is None and self.base <= number < self.base + 1000:
            self.stale.append((call, number))
        return port

    @staticmethod
    def simulated_time(module, sleep):
        """replaces the time module in the given one, so that sleeping lets the simulated time pass"""
        class Time:
            def __getattr__(self, name):
                return getattr(time, name)

        if hasattr(module, "time") and not callable(module.time):
            shim = Time()
            shim.sleep = sleep
            module.time = shim

    def find(self, name):
        for p in self.ports.values():
            if p.full() == name:
                return p
        return None

    def _names(self, names):
        if not names:
            return ffi.NULL
        strings = [ffi.new("char[]", n.encode()) for n in names]
        array = ffi.new("const char*[]", strings + [ffi.NULL])
        self.keep.append((strings, array))
        del self.keep[:-200]
        return ffi.cast("const char**", array)

    def _others(self, port):
        return [self.ports[o if i == port.number else i] for o, i in self.connections if port.number in (o, i)]

    def _pause(self):
        if self.delay:
            time.sleep(self.delay)

    # the functions of the library

    def jack_client_open(self, name, options, status, *args):
        with self.lock:
            name = bytes(name).decode() if not isinstance(name, bytes) else name.decode()
            unique, k = name, 1
            while any(c.name == unique for c in self.clients.values()):
                unique = f"{name}-{k:02}"
                k += 1
            number = self.base
            while number in self.clients:
                number += 1
            self.clients[number] = Client(number, unique)
            status[0] = 0
            return ffi.cast("jack_client_t*", number)

    def jack_client_close(self, ptr):
        with self.lock:
            c = self._client(ptr)
            if c is None:
                return 1
            self._deactivate(c)
            for p in [p for p in self.ports.values() if p.client is c]:
                self._unregister(p)
            del self.clients[c.number]
            return 0

    def jack_get_client_name(self, ptr):
        return self._client(ptr).cname

    def jack_get_sample_rate(self, ptr):
        return self.samplerate

    def jack_get_buffer_size(self, ptr):
        return self.blocksize

    def jack_activate(self, ptr):
        with self.lock:
            self._client(ptr).active = True
            return 0

    def _deactivate(self, c):
        c.active = False
        own = {p.number for p in self.ports.values() if p.client is c}
        self.connections = [x for x in self.connections if not own.intersection(x)]

    def jack_deactivate(self, ptr):
        with self.lock:
            c = self._client(ptr)
            if c is None or not c.active:
                return 1
            self._deactivate(c)
            return 0

    def jack_port_register(self, ptr, name, porttype, flags, size):
        with self.lock:
            c = self._client(ptr)
            name = name.decode()
            if not name or len(c.name) + len(name) + 1 > 255 or any(p.client is c and p.name == name for p in self.ports.values()):
                return ffi.NULL
            number = self.base
            while number in self.ports:
                number += 1
            self.ports[number] = Port(number, c, name, flags)
            self.ports = dict(sorted(self.ports.items()))
            return ffi.cast("jack_port_t*", number)

    def _unregister(self, port):
        del self.ports[port.number]
        self.removed = port
        self.connections = [x for x in self.connections if port.number not in x]

    def jack_port_unregister(self, ptr, port):
        with self.lock:
            port = self._port(port, "unregister")
            if port is None:
                return 1
            self._unregister(port)
            return 0

    def jack_port_name(self, port):
        p = self._port(port, "name")
        if p is None:
            self.keep.append(ffi.new("char[]", b"stale:port"))
            return self.keep[-1]
        return p.cname

    def jack_port_short_name(self, port):
        p = self._port(port, "short_name")
        if p is None:
            self.keep.append(ffi.new("char[]", b"port"))
            return self.keep[-1]
        return p.cshort

    def jack_port_type(self, port):
        return self.audio

    def jack_port_flags(self, port):
        p = self._port(port, "flags")
        return p.flags if p is not None else 0

    def jack_port_is_mine(self, ptr, port):
        p = self._port(port, "is_mine")
        return int(p is not None and p.client is self._client(ptr))

    def buffer(self, p):
        """the buffer, that a client gets for the port"""
        if p.is_input:
            sources = [self.ports[o] for o, i in self.connections if i == p.number]
            if len(sources) == 1:
                return sources[0].buffer
            p.buffer[:] = 0.0
            for s in sources:
                p.buffer[:] += s.buffer
        return p.buffer

    def jack_port_get_buffer(self, port, frames):
        with self.lock:
            p = self._port(port, "get_buffer")
            if p is None:
                self.keep.append(numpy.zeros(MAXBLOCK, dtype=numpy.float32))
                return ffi.cast("void*", self.keep[-1].ctypes.data)
            if self.log is not None:
                self.log.append(p.number)
            return ffi.cast("void*", self.buffer(p).ctypes.data)

    def jack_port_connected(self, port):
        with self.lock:
            p = self._port(port, "connected")
            return 0 if p is None else len(self._others(p))

    def jack_port_connected_to(self, port, name):
        with self.lock:
            p = self._port(port, "connected_to")
            if p is None:
                return 0
            name = name.decode()
            return int(any(o.full() == name for o in self._others(p)))

    def jack_port_get_connections(self, port):
        with self.lock:
            p = self._port(port, "get_connections")
            return ffi.NULL if p is None else self._names([o.full() for o in self._others(p)])

    def jack_port_get_all_connections(self, ptr, port):
        return self.jack_port_get_connections(port)

    def jack_port_by_name(self, ptr, name):
        p = self.find(name.decode() if isinstance(name, bytes) else ffi.string(name).decode())
        return ffi.NULL if p is None else ffi.cast("jack_port_t*", p.number)

    def jack_get_ports(self, ptr, name_pattern, type_pattern, flags):
        with self.lock:
            return self._names([p.full() for p in self.ports.values() if p.flags & flags == flags])

    def jack_free(self, ptr):
        pass

    def jack_connect(self, ptr, source, destination):
        with self.lock:
            self._pause()
            s, d = self.find(source.decode()), self.find(destination.decode())
            if s is None or d is None or s.is_input or not d.is_input or not s.client.active or not d.client.active:
                return -1
            if (s.number, d.number) in self.connections:
                return errno.EEXIST
            self.connections.append((s.number, d.number))
            return 0

    def jack_disconnect(self, ptr, source, destination):
        with self.lock:
            s, d = self.find(source.decode()), self.find(destination.decode())
            if s is None or d is None or (s.number, d.number) not in self.connections:
                return -1
            self.connections.remove((s.number, d.number))
            return 0

    def jack_port_disconnect(self, ptr, port):
        with self.lock:
            p = self._port(port, "disconnect")
            if p is None:
                return -1
            self.connections = [x for x in self.connections if p.number not in x]
            return 0

    def jack_set_process_callback(self, ptr, callback, arg):
        self._client(ptr).process = callback
        return 0

    def jack_set_sample_rate_callback(self, ptr, callback, arg):
        self._client(ptr).samplerate = callback
        return 0

    def jack_set_xrun_callback(self, ptr, callback, arg):
        self._client(ptr).xrun = callback
        return 0

    def jack_on_info_shutdown(self, ptr, callback, arg):
        self._client(ptr).shutdown = callback

    def jack_get_xrun_delayed_usecs(self, ptr):
        return self.xrun_delay

    # the actions of the server

    def cycle(self):
        """performs one process cycle"""
        with self.lock:
            clients = [c for c in self.clients.values() if c.active]
            if self.before:
                self.before()
        failed = []
        for c in clients:
            if c.process is None or not c.active:
                continue
            c.cycles += 1
            if c.process(self.blocksize, ffi.NULL):
                failed.append(c)
            if self.processed:
                with self.lock:
                    self.processed(c)
        if self.after:
            with self.lock:
                self.after()
        if failed:
            if self.deactivation_delay:
                time.sleep(self.deactivation_delay)
            with self.lock:
                for c in failed:
                    self._deactivate(c)
        self.time += 1

    def report_xrun(self, delay):
        self.xrun_delay = float(delay)
        for c in list(self.clients.values()):
            if c.xrun is not None:
                c.xrun(ffi.NULL)

    def set_sampling_rate(self, rate):
        self.samplerate = rate
        for c in list(self.clients.values()):
            if c.samplerate is not None:
                c.samplerate(rate, ffi.NULL)

    def shut_down(self):
        reason = ffi.new("char[]", b"stopped by the harness")
        for c in list(self.clients.values()):
            c.active = False
            if c.shutdown is not None:
                c.shutdown(0, reason, ffi.NULL)

    # ports of other clients, that are operated by the harness

    def external(self, name, inputs=(), outputs=(), process=None):
        with self.lock:
            number = self.base
            while number in self.clients:
                number += 1
            c = Client(number, name)
            self.clients[number] = c
            c.active = True
            for n in inputs:
                self.jack_port_register(ffi.cast("jack_client_t*", number), n.encode(), AUDIO, REAL.JackPortIsInput, 0)
            for n in outputs:
                self.jack_port_register(ffi.cast("jack_client_t*", number), n.encode(), AUDIO, REAL.JackPortIsOutput, 0)
            c.process = process
            return c

    def graph(self, name):
        """the connections of the client's ports by their names"""
        with self.lock:
            return sorted((self.ports[o].full(), self.ports[i].full()) for o, i in self.connections if name in (self.ports[o].client.name, self.ports[i].client.name))
