from props.link import Clock, Readings, World, os_errors
from symex.case import Case

PROPERTY = "C21"
ASSUMPTIONS = ["the socket, the serial port and the clock are stand-ins: a read returns at most the bytes asked for, nothing, or an operating-system error; the clock moves only while a read waits, by any whole number of seconds"]
END = 0x0D


def connected(E, kind, script, clock=None, **kw):
    w = World(E, kind, [script], clock)
    t = w.transport(**kw)
    E.check(E.run(t.connect).ok, "connected")
    return w, t


def segments(data, cut):
    if cut == "one":
        return [("data", data)]
    if cut == "bytes":
        return [("data", data[i:i + 1]) for i in range(len(data))]
    k = (len(data) + 1) // 2
    return [("data", x) for x in (data[:k], data[k:]) if len(x)]


def failed(E, out):
    E.check(out.raised(E.m.exceptions.CommunicationError), "an end, a silence or an error before the end character raises CommunicationError")


def streams(E, kind, n, calls, timeout=10):
    """any n bytes and then the stream ends or fails; receive again and again"""
    cut = E.choose("segments", ["one", "halves", "bytes"])
    end = E.choose("end", ["end"] + os_errors(kind))
    data = E.bytes("stream", n)
    last = ("end",) if end == "end" else ("raise", end)
    w, t = connected(E, kind, segments(data, cut) + [last], timeout=timeout)
    rest = data
    for i in range(calls):
        out = E.run(t.recv)
        k = 0
        while k < len(rest) and rest[k] != END:
            k += 1
        if k == len(rest):
            failed(E, out)
            return
        E.check(out.ok, "a frame is received")
        E.check(E.same(bytes(out.value), rest[:k + 1]), "exactly the bytes up to and including the first end character")
        rest = rest[k + 1:]
        E.check(w.peers[0].given == n - len(rest), "nothing beyond the end character is taken")


def clocked(E, kind, n, hi, lo=1, calls=1, plain=False, last=1000):
    """any clock readings: the bytes so far once the timeout has passed"""
    times = [E.int("clock%d" % i, 0, last) for i in range(n + 1)]
    for x, y in zip(times, times[1:]):
        E.assume(x <= y)
    limit = E.int("timeout", lo, hi)
    data = E.bytes("stream", n)
    if plain:
        for b in data:
            E.assume(b != END)
    w, t = connected(E, kind, [("data", data[i:i + 1]) for i in range(n)] + [("end",)], Readings(times[1:], times[0]), timeout=limit)
    at = 0
    for c in range(calls):
        begin, got = times[at], b""
        out = E.run(t.recv)
        while True:
            if at == n:
                failed(E, out)
                return
            got = got + data[at:at + 1]
            at += 1
            if got[-1] == END or times[at] - begin > limit:
                break
            # at the very moment either is right
            if w.peers[0].given == at and times[at] - begin == limit:
                break
        E.check(out.ok, "the bytes so far once the timeout has passed")
        E.check(E.same(bytes(out.value), got), "exactly the bytes received so far")
        E.check(w.peers[0].given == at, "nothing more is taken")


def endless(E, kind, n):
    """a stream without end character never keeps a receive for longer than its timeout"""
    k = E.choose("slow read", list(range(n)))
    steps = [0] * n
    steps[k] = E.int("wait", 11, 100)
    data = E.bytes("stream", n)
    for b in data:
        E.assume(b != END)
    w, t = connected(E, kind, [("data", data)], Clock(steps), timeout=10)
    out = E.run(t.recv)
    E.check(out.ok, "the bytes so far once the timeout has passed")
    E.check(E.same(bytes(out.value), data[:k + 1]), "exactly the bytes received so far")


def no_limit(E, kind, n):
    """without a timeout only an end character, an end or an error finishes"""
    steps = [E.int("wait%d" % i, 0, 100000) for i in range(n)]
    data = E.bytes("stream", n)
    for b in data[:-1]:
        E.assume(b != END)
    w, t = connected(E, kind, [("data", data), ("end",)], Clock(steps), timeout=None)
    out = E.run(t.recv)
    if data[n - 1] == END:
        E.check(out.ok, "a frame is received")
        E.check(E.same(bytes(out.value), data), "exactly the bytes up to and including the first end character")
    else:
        failed(E, out)


def default_limit(E, kind):
    """the default timeout is ten seconds for the whole receive"""
    a, b = E.int("first", 0, 9), E.int("second", 0, 30)
    data = E.bytes("stream", 2) + b"\x0d"
    E.assume(E.all([data[0] != END, data[1] != END]))
    w, t = connected(E, kind, [("data", data)], Clock([a, b, 0]))
    out = E.run(t.recv)
    E.check(out.ok, "received")
    if a + b > 10:
        E.check(E.same(bytes(out.value), data[:2]), "exactly the bytes received so far")
    elif a + b < 10:
        E.check(E.same(bytes(out.value), data), "exactly the bytes up to and including the first end character")


def recover(E, kind, n, m):
    """a receive that fails hands nothing to the next one"""
    end = E.choose("failure", ["end"] + os_errors(kind))
    a, b = E.bytes("lost", n), E.bytes("stream", m)
    for x in a:
        E.assume(x != END)
    last = ("end",) if end == "end" else ("raise", end)
    w, t = connected(E, kind, [("data", a), last, ("data", b + b"\x0d")])
    failed(E, E.run(t.recv))
    out = E.run(t.recv)
    k = 0
    while k < m and b[k] != END:
        k += 1
    E.check(out.ok, "a frame is received")
    E.check(E.same(bytes(out.value), (b + b"\x0d")[:k + 1]), "exactly the bytes up to and including the first end character")


def two_links(E, kind, other):
    """two transports do not mix their bytes"""
    a, b = E.bytes("first", 3), E.bytes("second", 2)
    for x in a:
        E.assume(x != END)
    for x in b:
        E.assume(x != END)
    w = World(E, kind, [[("data", a), ("end",), ("data", a + b"\x0d")], [("data", b + b"\x0d"), ("end",)]])
    t = w.transport()
    w.kind = other
    u = w.transport()
    E.check(E.run(t.connect).ok and E.run(u.connect).ok, "connected")
    failed(E, E.run(t.recv))
    out = E.run(u.recv)
    E.check(out.ok, "a frame is received")
    E.check(E.same(bytes(out.value), b + b"\x0d"), "exactly the bytes up to and including the first end character")
    out = E.run(t.recv)
    E.check(out.ok, "a frame is received")
    E.check(E.same(bytes(out.value), a + b"\x0d"), "exactly the bytes up to and including the first end character")
    failed(E, E.run(u.recv))


def long_frame(E, kind, n):
    """a long frame with free bytes at both ends"""
    cut = E.choose("segments", ["one", "bytes"])
    a, b = E.bytes("first", 2), E.bytes("last", 2)
    mid = bytes((37 * i + 14) % 256 for i in range(n))
    mid = mid.replace(b"\x0d", b"\x0e")
    data = a + mid + b + b"\x0d"
    w, t = connected(E, kind, segments(data, cut) + [("end",)])
    k = 0
    while data[k] != END:
        k += 1
    out = E.run(t.recv)
    E.check(out.ok, "a frame is received")
    E.check(E.same(bytes(out.value), data[:k + 1]), "exactly the bytes up to and including the first end character")


CASES = []
FR = "exactly the bytes up to and including the first end character"
FA = "an end, a silence or an error before the end character raises CommunicationError"
for _k in ("tcp", "serial"):
    for _n in (0, 1, 2, 4, 6):
        CASES.append(Case("%s-streams-%d" % (_k, _n), streams, kind=_k, n=_n, calls=_n + 1, need=[FA] + ([FR] if _n else []), secs=120, bound="every stream of %d bytes in one, two or single-byte segments, then its end or an error; all receives" % _n))
    CASES.append(Case("%s-streams-0-timeout-5" % _k, streams, kind=_k, n=3, calls=4, timeout=5, need=[FA, FR], secs=120, bound="every stream of 3 bytes, another timeout"))
    CASES.append(Case("%s-streams-9" % _k, streams, kind=_k, n=9, calls=10, tier="thorough", need=[FA, FR], secs=170, bound="every stream of 9 bytes; all receives"))
    for _n, _hi, _c in ((1, 20, 1), (2, 20, 1), (3, 30, 1), (3, 20, 2)):
        CASES.append(Case("%s-clock-%d-%d" % (_k, _n, _c), clocked, kind=_k, n=_n, hi=_hi, calls=_c, need=[FA, "nothing more is taken"], secs=120, bound="every stream of %d bytes, timeout 1 to %d s, any clock readings up to 1000 s; %d receives" % (_n, _hi, _c)))
    CASES.append(Case("%s-clock-plain" % _k, clocked, kind=_k, n=9, hi=40, plain=True, need=[FA, "nothing more is taken"], secs=120, bound="every stream of 9 bytes without end character, timeout 1 to 40 s, any clock readings up to 1000 s"))
    CASES.append(Case("%s-clock-plain-deep" % _k, clocked, kind=_k, n=14, hi=120, plain=True, tier="thorough", need=[FA, "nothing more is taken"], secs=170, bound="every stream of 14 bytes without end character, timeout 1 to 120 s, any clock readings up to 1000 s"))
    CASES.append(Case("%s-clock-5-3" % _k, clocked, kind=_k, n=5, hi=40, calls=3, tier="thorough", need=[FA, "nothing more is taken"], secs=170, bound="every stream of 5 bytes, timeout 1 to 40 s, any clock readings up to 1000 s; 3 receives"))
    CASES.append(Case("%s-clock-far" % _k, clocked, kind=_k, n=2, hi=1 << 20, last=1 << 40, calls=2, need=[FA, "nothing more is taken"], secs=120, bound="every stream of 2 bytes, timeout 1 to 2^20 s, any clock readings up to 2^40 s"))
    CASES.append(Case("%s-zero" % _k, clocked, kind=_k, n=3, hi=0, lo=0, need=["nothing more is taken"], secs=120, bound="every stream of 3 bytes, timeout 0"))
    CASES.append(Case("%s-endless" % _k, endless, kind=_k, n=12, need=["exactly the bytes received so far"], secs=120, bound="12 bytes without end character, one read slower than the timeout"))
    CASES.append(Case("%s-no-limit" % _k, no_limit, kind=_k, n=5, need=[FR, FA], secs=120, bound="every stream of 5 bytes, no timeout, any waits"))
    CASES.append(Case("%s-default" % _k, default_limit, kind=_k, need=[FR], secs=120, bound="the default timeout, any waits"))
    CASES.append(Case("%s-recover" % _k, recover, kind=_k, n=2, m=3, need=[FR], secs=120, bound="2 bytes lost to a failure, then every stream of 3 bytes and an end character"))
    CASES.append(Case("%s-long" % _k, long_frame, kind=_k, n=300, need=[FR], secs=120, bound="frames of 305 bytes, four of them free"))
    CASES.append(Case("%s-long-2300" % _k, long_frame, kind=_k, n=2300, need=[FR], secs=120, bound="frames of 2305 bytes, four of them free"))
    CASES.append(Case("%s-long-9000" % _k, long_frame, kind=_k, n=9000, need=[FR], secs=120, bound="frames of 9005 bytes, four of them free"))
    CASES.append(Case("%s-long-20000" % _k, long_frame, kind=_k, n=20000, tier="thorough", need=[FR], secs=170, bound="frames of 20005 bytes, four of them free"))
    for _o in ("tcp", "serial"):
        CASES.append(Case("%s-and-%s" % (_k, _o), two_links, kind=_k, other=_o, need=[FR, FA], secs=120, bound="two links, 3 and 2 free bytes"))
