"""Stand-ins for the operating system below the transports: sockets, serial ports and the clock, all scripted."""
import serial
import socket

FUEL = 60


class Clock:
    """a clock that moves only while a read waits; steps: how far each read moves it"""

    def __init__(self, steps=(), now=1000):
        self.now = now
        self.steps = list(steps)

    def read(self):
        return self.now

    def wait(self):
        if self.steps:
            self.now = self.now + self.steps.pop(0)


class Readings(Clock):
    """a clock that shows the given times after one read, two reads and so on"""

    def wait(self):
        if self.steps:
            self.now = self.steps.pop(0)


class Peer:
    """the other end: what each read meets.  ("data", bytes), ("end",), ("raise", exception)"""

    def __init__(self, E, script, clock):
        self.E, self.script, self.clock = E, list(script), clock
        self.given = 0
        self.dry = 0

    def take(self, n, peek=False):
        self.clock.wait()
        if not self.script:
            self.dry += 1
            if self.dry > FUEL:
                self.E.fail("reads on without end")
            return b""
        what = self.script[0]
        if what[0] == "raise":
            self.script.pop(0)
            raise what[1]
        if what[0] == "end":
            self.script.pop(0)
            return b""
        got, rest = what[1][:n], what[1][n:]
        if peek:
            return got
        if len(rest):
            self.script[0] = ("data", rest)
        else:
            self.script.pop(0)
        self.given += len(got)
        return got


class FakeSocket:
    def __init__(self, world, peer, timeout):
        """peer None: not connected yet"""
        self.w, self.peer, self.closed, self.shut = world, peer, False, False
        self.timeout = timeout
        world.opened.append(self)

    def connect(self, address):
        self.w.log.append("open")
        self.w.args.append((tuple(address), self.timeout))
        self.w.step("open")
        self.peer = self.w.peer()

    def recv(self, bufsize, flags=0):
        self.w.log.append("read")
        if self.closed or self.peer is None:
            raise OSError(9, "Bad file descriptor")
        self.w.bounded(self.timeout)
        return self.peer.take(bufsize, bool(flags & socket.MSG_PEEK))

    def recv_into(self, buffer, nbytes=0, flags=0):
        d = self.recv(nbytes or len(buffer), flags)
        buffer[:len(d)] = d
        return len(d)

    def _write(self, data):
        self.w.log.append("write")
        if self.closed or self.peer is None:
            raise OSError(9, "Bad file descriptor")
        self.w.step("write")

    def sendall(self, data, flags=0):
        self._write(data)
        self.w.written = self.w.written + bytes(data)

    def send(self, data, flags=0):
        # a socket may take only a part
        self._write(data)
        k = 1 if self.w.partial and len(data) > 1 else len(data)
        self.w.written = self.w.written + bytes(data[:k])
        return k

    def shutdown(self, how):
        self.w.log.append("shutdown")
        self.w.step("shutdown")
        self.shut = True

    def close(self):
        self.w.log.append("close")
        self.closed = True
        self.w.step("close")

    def settimeout(self, t):
        self.timeout = t

    def setblocking(self, flag):
        self.timeout = None if flag else 0

    def setsockopt(self, *a):
        pass

    def gettimeout(self):
        return self.timeout

    def getpeername(self):
        return ("10.0.0.1", 4000)

    def fileno(self):
        return -1 if self.closed else 77

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FakeSerial:
    def __init__(self, world, port, baudrate, bytesize, parity, stopbits, timeout):
        """port None: to be opened later"""
        self.w, self.peer, self.closed = world, None, True
        self.port, self.baudrate, self.bytesize, self.parity, self.stopbits, self.timeout = port, baudrate, bytesize, parity, stopbits, timeout
        if port is not None:
            self.open()
        world.opened.append(self)

    @property
    def is_open(self):
        return not self.closed

    def isOpen(self):
        return not self.closed

    def open(self):
        self.w.log.append("open")
        self.w.args.append((self.port, self.baudrate, self.bytesize, self.parity, self.stopbits, self.timeout))
        self.w.step("open")
        self.peer = self.w.peer()
        self.closed = False

    def read(self, size=1):
        self.w.log.append("read")
        if self.closed:
            raise serial.SerialException("port is not open")
        self.w.bounded(self.timeout)
        return self.peer.take(size)

    def read_until(self, expected=b"\n", size=None):
        line = bytearray()
        while True:
            c = self.read(1)
            if not c:
                break
            line += c
            if line[-len(expected):] == expected:
                break
            if size is not None and len(line) >= size:
                break
        return bytes(line)

    def write(self, data):
        self.w.log.append("write")
        if self.closed:
            raise serial.SerialException("port is not open")
        self.w.step("write")
        self.w.written = self.w.written + bytes(data)
        return len(data)

    def flush(self):
        pass

    def reset_input_buffer(self):
        pass

    def reset_output_buffer(self):
        pass

    def close(self):
        self.w.log.append("close")
        self.closed = True
        self.w.step("close")


class World:
    """installs the stand-ins; faults: a function from the name of a call of the operating system to the exception it meets, or None"""

    def __init__(self, E, kind, scripts=(), clock=None, faults=None, partial=False):
        import time
        # everything is loaded before the stand-ins are in place
        E.m.transport, E.m.client
        self.E, self.kind, self.clock, self.faults, self.partial = E, kind, clock or Clock(), faults, partial
        self.scripts = list(scripts)
        self.limit = 10
        self.opened, self.log, self.args, self.written, self.peers = [], [], [], b"", []
        E.patch("time", "monotonic", self.clock.read)
        E.patch("socket", "create_connection", self.create_connection)
        E.patch("socket", "socket", self.make_socket)
        E.patch("serial", "Serial", self.make_serial)

    def step(self, name):
        if self.faults is not None:
            exc = self.faults(name)
            if exc is not None:
                raise exc

    def bounded(self, timeout):
        """a single read must not wait for longer than the transport's timeout"""
        if self.limit is not None:
            self.E.check(timeout is not None, "a read waits no longer than the timeout")
            self.E.check(timeout <= self.limit, "a read waits no longer than the timeout")

    def peer(self):
        p = Peer(self.E, self.scripts.pop(0) if self.scripts else [], self.clock)
        self.peers.append(p)
        return p

    def create_connection(self, address, timeout=None, source_address=None, **kw):
        self.log.append("open")
        self.args.append((tuple(address), timeout))
        self.step("open")
        return FakeSocket(self, self.peer(), timeout)

    def make_socket(self, *a, **kw):
        return FakeSocket(self, None, None)

    def make_serial(self, port=None, baudrate=9600, bytesize=8, parity="N", stopbits=1, timeout=None, xonxoff=False, rtscts=False, write_timeout=None, **kw):
        return FakeSerial(self, port, baudrate, bytesize, parity, stopbits, timeout)

    def transport(self, **kw):
        T = self.E.m.transport
        self.limit = kw.get("timeout", 10)
        if self.kind == "tcp":
            return T.BlockingTcpTransport("10.0.0.1", 4000, **kw)
        return T.SerialTransport("/dev/ttyX", 9600, **kw)

    def handle(self, t):
        return t.tcp_socket if self.kind == "tcp" else t.serial_port


def os_errors(kind):
    out = [OSError(5, "Input/output error"), ConnectionResetError("reset")]
    if kind == "tcp":
        return out + [socket.timeout("timed out"), ConnectionRefusedError("refused"), socket.gaierror("name")]
    return out + [serial.SerialException("device reports readiness to read"), serial.SerialTimeoutException("Write timeout")]
