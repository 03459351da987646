from props.link import World, os_errors
from symex.case import Case

PROPERTY = "C22"
ASSUMPTIONS = ["the socket and the serial port are stand-ins: every call of the operating system works or raises one of its errors; a failing close still closes"]
OPS = ["connect", "disconnect", "send", "recv"]
ALIVE = "the link works"


class Model:
    """what the transport should look like"""

    def __init__(self):
        self.link = None
        self.written = b""


def check_closed(E, w, t, label):
    for h in w.opened:
        E.check(h.closed, label)
    E.check(w.handle(t) is None, label)


def step(E, w, t, m, op, tag, faults):
    """one operation against the model"""
    X = E.m.exceptions
    faults.append([])
    log = list(w.log)
    if op == "connect":
        out = E.run(t.connect)
        if m.link is not None:
            E.check(out.raised(RuntimeError), "connecting while connected raises RuntimeError")
            E.check(w.log == log, "and does not touch the link")
            E.check(w.handle(t) is m.link, "and does not touch the link")
        elif faults[-1]:
            E.check(out.raised(X.CommunicationError), "a failure while connecting surfaces as CommunicationError")
        else:
            E.check(out.ok, "connecting works")
            m.link = w.opened[-1]
            E.check(w.log == log + ["open"], "one link is opened")
            E.check(not m.link.closed, "the link is open")
            if w.kind == "tcp":
                E.check(w.args[-1] == (("10.0.0.1", 4000), t.timeout), "to the configured address")
            else:
                E.check(w.args[-1] == ("/dev/ttyX", 9600, 8, "N", 1, t.timeout), "to the configured address")
    elif op == "disconnect":
        out = E.run(t.disconnect)
        if m.link is None:
            E.check(out.ok, "disconnecting while disconnected does nothing")
            E.check(w.log == log, "disconnecting while disconnected does nothing")
        else:
            if faults[-1]:
                E.check(out.raised(X.CommunicationError), "a failure while disconnecting surfaces as CommunicationError")
            else:
                E.check(out.ok, "disconnecting works")
            check_closed(E, w, t, "disconnecting closes the link and forgets it")
            m.link = None
    elif op == "send":
        data = E.bytes("data" + tag, 3)
        out = E.run(t.send, data)
        if m.link is None:
            E.check(out.raised(RuntimeError), "sending while not connected raises RuntimeError")
            E.check(w.log == log, "and does not touch the link")
        elif faults[-1]:
            E.check(out.raised(X.CommunicationError), "a failure while sending surfaces as CommunicationError")
        else:
            E.check(out.ok, "sending works")
            m.written = m.written + data
        E.check(E.same(w.written, m.written), "all bytes of a send reach the link in order")
    else:
        out = E.run(t.recv)
        if m.link is None:
            E.check(out.raised(RuntimeError), "receiving while not connected raises RuntimeError")
            E.check(w.log == log, "and does not touch the link")
        elif faults[-1]:
            E.check(out.raised(X.CommunicationError), "a failure while receiving surfaces as CommunicationError")
        else:
            E.check(out.ok, ALIVE)
            E.check(E.same(bytes(out.value), b"ok\x0d"), ALIVE)
    E.check(not out.raised(OSError), "no failure of the operating system comes through")


def setup(E, kind, err, which=None, partial=False, **kw):
    """a world in which every call of the operating system may fail; faults: those met by each operation"""
    faults = [[]]
    count = [0]

    def fault(name):
        if err is None or which is not None and name not in which:
            return None
        count[0] += 1
        if E.choose("fault%d" % count[0], [False, True]):
            faults[-1].append(name)
            return err
        return None
    w = World(E, kind, faults=fault, partial=partial)
    # what is read: a frame, after a possible failure
    w.peer = lambda: ReadPeer(w)
    return w, w.transport(**kw), Model(), faults


class ReadPeer:
    def __init__(self, w):
        self.w, self.left = w, b""

    def take(self, n, peek=False):
        if not len(self.left):
            self.w.step("read")
            self.left = b"ok\x0d"
        out, self.left = self.left[:n], self.left[n:]
        return out


def finish(E, w, t, m, faults):
    """whatever happened, the transport can be closed and used again"""
    w.faults = None
    if m.link is not None:
        step(E, w, t, m, "disconnect", "-end", faults)
    check_closed(E, w, t, "nothing stays open")
    for op in ("connect", "send", "recv", "disconnect"):
        step(E, w, t, m, op, "-again", faults)
    check_closed(E, w, t, "nothing stays open")


def histories(E, kind, n, first=None, every=False):
    """n operations, every call failing or not"""
    errs = os_errors(kind)
    err = E.choose("error", errs) if every else errs[0]
    w, t, m, faults = setup(E, kind, err)
    for i in range(n):
        op = first if first and i == 0 else E.choose("op%d" % i, OPS)
        step(E, w, t, m, op, str(i), faults)
    finish(E, w, t, m, faults)


def errors(E, kind, op):
    """every error of the operating system in every call of one operation"""
    err = E.choose("error", os_errors(kind) + ([BrokenPipeError("pipe"), ConnectionAbortedError("aborted"), TimeoutError("late"), OSError(107, "not connected"), BlockingIOError("again")] if kind == "tcp" else [PermissionError("denied"), FileNotFoundError("no port"), OSError(19, "no device")]))
    w, t, m, faults = setup(E, kind, err)
    if op != "connect":
        w.faults, f = None, w.faults
        step(E, w, t, m, "connect", "0", faults)
        w.faults = f
    step(E, w, t, m, op, "1", faults)
    step(E, w, t, m, op, "2", faults)
    finish(E, w, t, m, faults)


def sends(E, kind, sizes, partial=False):
    """sends of any content"""
    w, t, m, faults = setup(E, kind, None, partial=partial)
    E.check(E.run(t.connect).ok, "connecting works")
    every = b""
    for i, n in enumerate(sizes):
        data = E.bytes("data%d" % i, n)
        if E.choose("kind%d" % i, ["bytes", "bytearray"]) == "bytearray":
            data = bytearray(data)
        E.check(E.run(t.send, data).ok, "sending works")
        every = every + bytes(data)
        E.check(E.same(w.written, every), "all bytes of a send reach the link in order")


def reconnect(E, kind, n):
    """connections one after the other, each ended by a failing or a working disconnect; the bytes of one never show in another"""
    err = os_errors(kind)[0]
    w, t, m, faults = setup(E, kind, err, ("shutdown", "close"))
    for i in range(n):
        for op in ("connect", "send", "recv", "disconnect"):
            step(E, w, t, m, op, str(i), faults)
    E.check(len(w.opened) == n, "one link for each connection")
    finish(E, w, t, m, faults)


def settings(E, kind):
    """the configured address, port and timeout are used"""
    w = World(E, kind)
    T = E.m.transport
    tmo = E.int("timeout", 1, 1000)
    if kind == "tcp":
        port = E.int("port", 1, 65535)
        t = T.BlockingTcpTransport(host="meter.example", port=port, timeout=tmo)
        E.check(E.run(t.connect).ok, "connecting works")
        (host, p), to = w.args[-1]
        E.check(E.all([host == "meter.example", p == port, to == tmo]), "to the configured address")
        E.check(t.address[0] == "meter.example", "to the configured address")
    else:
        baud = E.int("baud", 300, 115200)
        t = T.SerialTransport(port="/dev/ttyS7", baud_rate=baud, timeout=tmo)
        E.check(E.run(t.connect).ok, "connecting works")
        p, b, bits, par, stop, to = w.args[-1]
        E.check(E.all([p == "/dev/ttyS7", b == baud, bits == 8, par == "N", stop == 1, to == tmo]), "to the configured address")


CASES = []
END = "nothing stays open"
for _k in ("tcp", "serial"):
    CASES.append(Case("%s-histories-2" % _k, histories, kind=_k, n=2, every=True, need=[END], secs=120, bound="every 2 operations, each call failing with each of five errors or not, then a full cycle"))
    for _f in OPS:
        CASES.append(Case("%s-histories-5-%s" % (_k, _f), histories, kind=_k, n=5, first=_f, need=[END], secs=150, bound="every 5 operations, each call failing or not, then a full cycle"))
        CASES.append(Case("%s-errors-%s" % (_k, _f), errors, kind=_k, op=_f, need=[END], secs=120, bound="every kind of operating-system error, one operation twice"))
        CASES.append(Case("%s-histories-7-%s" % (_k, _f), histories, kind=_k, n=7, first=_f, tier="thorough", need=[END], secs=170, bound="every 7 operations, each call failing or not, then a full cycle"))
    CASES.append(Case("%s-reconnect" % _k, reconnect, kind=_k, n=3, need=[END], secs=120, bound="three connections in a row, each disconnect working or failing"))
    for _s in ((0, 1, 5), (64,), (1, 300)):
        CASES.append(Case("%s-sends-%s" % (_k, "-".join(str(x) for x in _s)), sends, kind=_k, sizes=_s, partial=True, need=["all bytes of a send reach the link in order"], secs=120, bound="every content of sends of these sizes"))
    for _s in ((1, 5000, 3), (70000, 2)):
        CASES.append(Case("%s-sends-%s" % (_k, "-".join(str(x) for x in _s)), sends, kind=_k, sizes=_s, need=["all bytes of a send reach the link in order"], secs=120, bound="every content of sends of these sizes"))
    CASES.append(Case("%s-settings" % _k, settings, kind=_k, need=["to the configured address"], secs=60, bound="every port or speed and every timeout up to 1000 s"))
