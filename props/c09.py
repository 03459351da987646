from props.common import quiet
from props.conn import KEY, KID, KINDS, check_payload, conn, payload, request, wire_of
from symex.case import Case

PROPERTY = "C09"
ASSUMPTIONS = ["computed check, CRC and cipher text bytes are no reserved characters; the free payload byte takes every value, also the reserved ones, except with two or more cuts and in lone-end",
               "the AES block cipher is an arbitrary permutation of 16-byte blocks for each key; the padding drawn is one fixed sequence"]


def setup(E, kind, key, free=True):
    """a connection whose request of this kind is outstanding; the wire bytes of its response (with reserved bytes in it), its payload and its event when it arrives at once"""
    E.quiet_compare(("data",) if free else ())
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    x = E.bytes("data", 1)
    if not free:
        quiet(E, x)
    x = x + b"\x0d\x1b\x0e\x1b\x8d\x0f"
    body = payload(E, kind, x=x, n=2)
    w = wire_of(E, kind, body, key)
    cs = []
    for i in range(2):
        c = conn(E, key, KID if key is not None else None)
        E.check(E.run(c.send, request(E, kind)).ok, "a request is sent")
        cs.append(c)
    E.check(E.run(cs[1].receive_data, w).ok, "bytes are received")
    ref = E.run(cs[1].next_event)
    E.check(ref.ok, "the response is delivered at once")
    check_payload(E, ref.value, kind, body)
    return cs[0], w, body, ref.value


def need(E, c):
    r = E.run(c.next_event)
    E.check(E.all([r.ok, r.value is E.m.state.NEED_DATA]), "more data is needed before the last byte")


def delivered(E, c, kind, body, ref):
    r = E.run(c.next_event)
    E.check(r.ok, "the response is delivered")
    check_payload(E, r.value, kind, body)
    E.check(type(r.value) is type(ref), "the same event as at once")
    E.check(E.same(r.value, ref), "the same event as at once")
    r = E.run(c.next_event)
    E.check(E.all([r.ok, r.value is E.m.state.NEED_DATA]), "exactly once")


def feed(E, c, piece):
    E.check(E.run(c.receive_data, piece).ok, "bytes are received")


def cuts(E, kind, n, poll, key=None, step=1):
    """n cut positions (empty pieces too)"""
    c, w, body, ref = setup(E, kind, key, n == 1)
    at, lo = [], 0
    for i in range(n):
        lo = E.choose("cut%d" % i, list(range(lo, len(w) + 1, step)))
        at.append(lo)
    pos = 0
    for p in at:
        feed(E, c, w[pos:p])
        pos = p
        if p == len(w):
            break
        if poll:
            need(E, c)
    if pos < len(w):
        feed(E, c, w[pos:])
    delivered(E, c, kind, body, ref)


def bytewise(E, kind, poll, key=None, rounds=1):
    c, w, body, ref = setup(E, kind, key)
    for r in range(rounds):
        for i in range(len(w)):
            feed(E, c, w[i:i + 1])
            if poll and i + 1 < len(w):
                need(E, c)
        delivered(E, c, kind, body, ref)
        if r + 1 < rounds:
            E.check(E.run(c.send, request(E, kind)).ok, "the next request is sent")


def lone_end(E, kind, key=None):
    """end characters while nothing is buffered, before and after the response, polled or not"""
    c, w, body, ref = setup(E, kind, key, False)
    poll = E.choose("poll", [False, True])
    joined = E.choose("joined", [False, True])
    for i in range(E.choose("before", [0, 2])):
        feed(E, c, b"\x0d")
        if poll:
            need(E, c)
    p = E.choose("cut", [0, 1, len(w) // 2, len(w) - 1])
    head = b"\x0d" if joined else b""
    if p:
        feed(E, c, head + w[:p])
        need(E, c)
        head = b""
    feed(E, c, head + w[p:])
    delivered(E, c, kind, body, ref)
    for i in range(E.choose("after", [0, 2])):
        feed(E, c, b"\x0d")
        if poll:
            need(E, c)
    E.check(E.run(c.send, request(E, kind)).ok, "the next request is sent")
    feed(E, c, w)
    delivered(E, c, kind, body, ref)


def wide(E, kind, n, size, poll, key=None):
    """n free content bytes; pieces of a size, the first one shorter or not"""
    E.quiet_compare()
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    body = payload(E, kind, x=quiet(E, E.bytes("content", n)), n=3)
    w = wire_of(E, kind, body, key)
    c = conn(E, key, KID if key is not None else None)
    E.check(E.run(c.send, request(E, kind)).ok, "a request is sent")
    at = E.choose("first", list(range(1, size + 1 if size else len(w))))
    size = size or len(w)
    feed(E, c, w[:at])
    while at < len(w):
        if poll:
            need(E, c)
        feed(E, c, w[at:at + size])
        at += size
    r = E.run(c.next_event)
    E.check(r.ok, "the response is delivered")
    check_payload(E, r.value, kind, body)
    r = E.run(c.next_event)
    E.check(E.all([r.ok, r.value is E.m.state.NEED_DATA]), "exactly once")


def long(E, kind, n, size, poll=True, key=None):
    """a long response in pieces of a size"""
    E.quiet_compare()
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    lead = quiet(E, E.bytes("content", 1)) if key is None else b"\x41"
    body = payload(E, kind, x=lead + bytes((7 * i + 2) & 255 for i in range(n)) + quiet(E, E.bytes("more", 1)), n=2)
    w = wire_of(E, kind, body, key)
    c = conn(E, key, KID if key is not None else None)
    for r in range(2):
        E.check(E.run(c.send, request(E, kind)).ok, "a request is sent")
        at = 0
        while at < len(w):
            if poll and at:
                need(E, c)
            feed(E, c, w[at:at + size])
            at += size
        x = E.run(c.next_event)
        E.check(x.ok, "the response is delivered")
        check_payload(E, x.value, kind, body)
        x = E.run(c.next_event)
        E.check(E.all([x.ok, x.value is E.m.state.NEED_DATA]), "exactly once")


CASES = []
for _n, _z in ((120, 1), (250, 16), (500, 255), (1030, 256), (1030, 64), (1030, 2000), (4000, 1024)):
    for _k in ("by_id", "values", "time", "parameters"):
        CASES.append(Case("long-%s-%d-%d" % (_k, _n, _z), long, kind=_k, n=_n, size=_z, poll=_z < 500, secs=60, need=["exactly once"], bound="responses of %d bytes, two of them free, in pieces of %d bytes, twice" % (_n, _z)))
for _n, _z, _t in ((60, 7, "quick"), (250, 64, "quick"), (500, 255, "thorough"), (1030, 600, "thorough")):
    CASES.append(Case("long-encrypted-%d-%d" % (_n, _z), long, kind="by_id", n=_n, size=_z, poll=False, key=KEY, secs=60, tier=_t, need=["exactly once"], bound="encrypted responses of %d bytes, one of them free, in pieces of %d bytes, twice" % (_n, _z)))
for _k in ("by_id", "values", "time", "parameters"):
    for _z in (0, 2, 3, 5):
        CASES.append(Case("wide-%s-%d" % (_k, _z), wide, kind=_k, n=6, size=_z, poll=_k != "time", secs=60, need=["exactly once"], bound="six free content bytes (no reserved ones), " + ("pieces of %d bytes after a first of up to as many" % _z if _z else "every cut")))
CASES.append(Case("wide-encrypted", wide, kind="by_id", n=6, size=0, poll=True, key=KEY, secs=90, need=["exactly once"], bound="six free content bytes, every cut"))
NEED = ["the same event as at once", "exactly once"]
for _k in KINDS:
    for _key in (None, KEY):
        _s = "" if _key is None else "-encrypted"
        CASES.append(Case("bytewise%s-%s" % (_s, _k), bytewise, kind=_k, poll=True, key=_key, rounds=2, secs=90, need=NEED, bound="two exchanges, byte by byte, polled after each byte"))
        CASES.append(Case("bytewise-unpolled%s-%s" % (_s, _k), bytewise, kind=_k, poll=False, key=_key, secs=60, need=NEED, bound="byte by byte, polled at the end"))
        CASES.append(Case("one-cut%s-%s" % (_s, _k), cuts, kind=_k, n=1, poll=True, key=_key, secs=90, need=NEED, bound="every cut position (empty pieces included)"))
        CASES.append(Case("two-cuts%s-%s" % (_s, _k), cuts, kind=_k, n=2, poll=True, key=_key, tier="quick" if _key is None and _k in ("time", "by_id", "write_time") else "thorough", secs=150, need=NEED, bound="every two cut positions"))
        CASES.append(Case("two-cuts-unpolled%s-%s" % (_s, _k), cuts, kind=_k, n=2, poll=False, key=_key, tier="thorough", secs=150, need=NEED, bound="every two cut positions"))
        CASES.append(Case("lone-end%s-%s" % (_s, _k), lone_end, kind=_k, key=_key, secs=90, need=NEED, bound="0..3 end characters before (one of them in the read that holds the response), 0..2 after, then a second exchange"))
    CASES.append(Case("three-cuts-%s" % _k, cuts, kind=_k, n=3, poll=True, step=3, tier="thorough", secs=170, need=NEED, bound="three cut positions, every third byte"))
