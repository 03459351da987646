import datetime

from props.common import le, quiet
from props.conn import KEY, KID, KINDS, RESPONSE_CLASS, SERVICES, check_payload, conn, payload, request, wire_of
from symex.case import Case

PROPERTY = "C08"
ASSUMPTIONS = ["field, payload, check and cipher text bytes are no reserved characters (the escape of any content is C01's subject)",
               "the AES block cipher is an arbitrary permutation of 16-byte blocks for each key; the padding drawn is one fixed sequence"]

BAD = ["values", "parameters count", "parameters buffer", "by_time amount", "by_time year", "by_id amount", "by_id record", "write_time year", "no password"]


def bad_request(E, what, big):
    """a request that cannot be encoded; big: too wide for two bytes"""
    A, C = E.m.application, E.m.constants
    t = datetime.datetime(2021, 3, 4, 5, 6, 7)
    if what == "values":
        return A.ReadInstantaneousValuesRequest(password="12\u20ac456")
    if what == "no password":
        return A.ReadInstantaneousValuesRequest(password=None)
    if what == "parameters count":
        return A.ReadDeviceParametersRequest(password="123456", object_count=big, buffer_length=16)
    if what == "parameters buffer":
        return A.ReadDeviceParametersRequest(password="123456", object_count=1, buffer_length=big)
    if what == "by_time amount":
        return A.ReadArchiveByTimeRequest(password="123456", archive=C.Archive.DATA, amount=big, oldest_timestamp=t)
    if what == "by_time year":
        return A.ReadArchiveByTimeRequest(password="123456", archive=C.Archive.DATA, amount=1, oldest_timestamp=t.replace(year=1999))
    if what == "by_id amount":
        return A.ReadArchiveRequest(password="123456", archive=C.Archive.DATA, amount=big, oldest_record_id=1)
    if what == "by_id record":
        return A.ReadArchiveRequest(password="123456", archive=C.Archive.DATA, amount=1, oldest_record_id=big + (1 << 32))
    return A.WriteTimeRequest(password="123456", device_time=t.replace(year=2100))


class Peer:
    """reference: which request is outstanding"""

    def __init__(self, E, key):
        self.E = E
        self.key = key
        self.c = conn(E, key, KID if key is not None else None)
        self.out = None
        self.x = quiet(E, E.bytes("data", 1))
        self.big = None

    def send(self, kind):
        E = self.E
        r = E.run(self.c.send, request(E, kind))
        if self.out is None:
            E.check(r.ok, "a request is accepted when none is outstanding")
            E.check(E.all([len(r.value) > 15, r.value[3] == SERVICES[kind]]), "the request is emitted")
            self.out = kind
        else:
            E.check(not r.ok, "a request is refused while one is outstanding")
            E.check(isinstance(r.exc, E.m.exceptions.LocalElgasProtocolError), "refused with the library's protocol error")

    def bad(self, what):
        E = self.E
        if self.big is None:
            self.big = E.int("too wide", 65536, (1 << 20) - 1)
        r = E.run(self.c.send, bad_request(E, what, self.big))
        E.check(not r.ok, "a request that cannot be encoded is refused")

    def wire(self, kind):
        E = self.E
        if kind == "foreign":
            return wire_of(E, "time", payload(E, "time", x=self.x, n=4), self.key, service=0x64 + E.choose("service", [0x0A, 0x1A]))
        return wire_of(E, kind, payload(E, kind, x=self.x, n=4), self.key)

    def event(self, kind):
        E = self.E
        r = E.run(self.c.next_event)
        if self.out == kind:
            E.check(r.ok, "the response of the outstanding request is accepted")
            check_payload(E, r.value, kind, payload(E, kind, x=self.x, n=4))
            self.out = None
            r = E.run(self.c.next_event)
            E.check(E.all([r.ok, r.value is E.m.state.NEED_DATA]), "it is delivered once")
        elif self.out is None:
            E.check(E.any([not r.ok, r.ok and r.value is E.m.state.NEED_DATA]), "nothing is delivered when no request is outstanding")
        else:
            E.check(not r.ok, "the response of another request is refused")
            if kind != "foreign":
                E.check(isinstance(r.exc, E.m.exceptions.LocalElgasProtocolError), "refused with the library's protocol error")

    def answer(self, kind):
        E = self.E
        E.check(E.run(self.c.receive_data, self.wire(kind)).ok, "bytes are received")
        self.event(kind)

    def close(self, nxt):
        """whatever happened: the outstanding request is completed by its response, and the next one is accepted"""
        if self.out is not None:
            self.answer(self.out)
        self.send(nxt)
        self.answer(nxt)


ACTIONS = [("send", k) for k in KINDS] + [("answer", k) for k in KINDS] + [("bad", "parameters count")]


def do(p, a, what):
    if a == "send":
        p.send(what)
    elif a == "answer":
        p.answer(what)
    else:
        p.bad(what)


def history(E, first, steps, key=None):
    more = [E.choose("step%d" % (i + 2), ACTIONS) for i in range(steps - 1)]
    E.quiet_compare()
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    p = Peer(E, key)
    do(p, *first)
    for a in more:
        do(p, *a)
    p.close(first[1] if first[0] != "bad" else "time")


def failed_sends(E, kind):
    """each kind of request that cannot be encoded, before and while `kind` is outstanding"""
    E.quiet_compare()
    p = Peer(E, None)
    what = E.choose("what", BAD)
    if E.choose("before", [True, False]):
        p.bad(what)
    p.send(kind)
    if E.choose("while", [True, False]):
        p.bad(what)
    p.close("time")


def same_read(E, kind, key=None):
    """the response of another request and the right one in one read"""
    other = E.choose("other", [k for k in KINDS if k != kind])
    E.quiet_compare()
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    p = Peer(E, key)
    p.send(kind)
    E.check(E.run(p.c.receive_data, p.wire(other) + p.wire(kind)).ok, "bytes are received")
    p.event(other)
    p.event(kind)
    p.close(other)


def foreign(E, kind, service):
    """a response of a service that no request of the connection has"""
    E.quiet_compare()
    p = Peer(E, None)
    p.send(kind)
    E.check(E.run(p.c.receive_data, wire_of(E, "time", payload(E, "time", x=p.x, n=4), service=service)).ok, "bytes are received")
    r = E.run(p.c.next_event)
    E.check(E.any([not r.ok, r.ok and r.value is E.m.state.NEED_DATA]), "the response of another service is not delivered")
    p.close(kind)


def two(E, kind):
    """two connections have nothing to do with each other"""
    other = E.choose("other", KINDS)
    order = E.choose("order", [(0, 1, 0, 1), (0, 1, 1, 0), (0, 0, 1, 1)])
    cut = E.choose("cut", [0, 1])
    E.quiet_compare()
    ps = [Peer(E, None), Peer(E, None)]
    kinds = [kind, other]
    if cut:
        # the first bytes of the answer are there before the other connection is used
        ps[0].send(kind)
        w = ps[0].wire(kind)
        E.check(E.run(ps[0].c.receive_data, w[:9]).ok, "bytes are received")
        ps[1].send(other)
        ps[1].answer(other)
        E.check(E.run(ps[0].c.receive_data, w[9:]).ok, "bytes are received")
        ps[0].event(kind)
    else:
        for i in order:
            if ps[i].out is None:
                ps[i].send(kinds[i])
            else:
                ps[i].answer(kinds[i])
    for p in ps:
        p.close(kind)


CASES = []
NEED = ["it is delivered once"]
for _a in ACTIONS:
    _id = "-".join(_a).replace(" ", "-")
    CASES.append(Case("history-" + _id, history, first=_a, steps=3, secs=150, need=NEED, bound="every history of 3 steps out of 13 that starts with this one, then a full exchange"))
    CASES.append(Case("encrypted-" + _id, history, first=_a, steps=2, key=KEY, secs=120, need=NEED, bound="every encrypted history of 2 steps that starts with this one, then a full exchange"))
    CASES.append(Case("long-" + _id, history, first=_a, steps=4, tier="thorough", secs=170, need=NEED, bound="every history of 4 steps out of 13 that starts with this one, then a full exchange"))
for _k in KINDS:
    CASES.append(Case("two-" + _k, two, kind=_k, secs=60, need=NEED, bound="two connections, every second request, three orders and a cut answer"))
    CASES.append(Case("unencodable-" + _k, failed_sends, kind=_k, secs=60, need=NEED, bound="9 ways in which a request cannot be encoded, every too wide value up to 2^20"))
    CASES.append(Case("one-read-" + _k, same_read, kind=_k, secs=60, need=NEED, bound="two responses in one read"))
    CASES.append(Case("one-read-encrypted-" + _k, same_read, kind=_k, key=KEY, secs=60, need=NEED, bound="two encrypted responses in one read"))
    CASES.append(Case("foreign-" + _k, foreign, kind=_k, service=0x6B, secs=60, need=NEED, bound="a response of another service"))
