"""Independence: of clients and connections used at the same time, and of objects decoded one after the other."""
import attr

from props.c17 import check_list, entry, wire
from props.c18 import fields_of, schema
from props.c20 import answer, call, check_request, check_result
from props.common import quiet
from props.conn import KEY, KID, KINDS, SERVICES, check_payload, conn, payload, request, wire_of
from props.fake import FakeLink
from props.layouts import LAYOUTS, check_object, make
from symex.case import Case

PROPERTY = "C26"
ASSUMPTIONS = ["contents, check, CRC and cipher text bytes of frames are no reserved characters (the escape of any content is C01's subject); floats are finite where an object is stored; texts are constant",
               "the AES block cipher is an arbitrary permutation of 16-byte blocks for each key; the padding drawn is one fixed sequence"]
KEY2 = bytes(range(0x61, 0x71))
DONE = "as if used alone"


def orders(n, m):
    """all interleavings of n steps of A and m steps of B"""
    if n == 0 or m == 0:
        return ["A" * n + "B" * m]
    return ["A" + x for x in orders(n - 1, m)] + ["B" + x for x in orders(n, m - 1)]


class Side:
    """one connection and the steps of its exchange"""

    def __init__(self, E, name, kind, key, kid, error=False, c=None):
        self.E, self.kind, self.key = E, kind, key
        self.c = c
        self.make = lambda: conn(E, key, kid if key is not None else None)
        self.body = bytes([E.choose("error", [0x01, 0x28])]) if error else payload(E, kind, x=quiet(E, E.bytes(name + " data", 1)), n=4)
        self.error = error
        self.wire = wire_of(E, kind, self.body, key, kid)
        self.k = 0

    def step(self):
        E, self.k = self.E, self.k + 1
        if self.k == 1:
            if self.c is None:
                self.c = self.make()
            r = E.run(self.c.send, request(E, self.kind))
            E.check(r.ok, "the request is accepted")
            E.check(E.all([len(r.value) > 15, r.value[3] == SERVICES[self.kind]]), "the request is emitted")
        elif self.k == 2:
            E.check(E.run(self.c.receive_data, self.wire[:9]).ok, "bytes are received")
            r = E.run(self.c.next_event)
            E.check(r.ok and r.value is E.m.state.NEED_DATA, "more data is needed")
        elif self.k == 3:
            E.check(E.run(self.c.receive_data, self.wire[9:]).ok, "bytes are received")
        else:
            r = E.run(self.c.next_event)
            if self.error:
                E.check(r.raised(E.m.exceptions.ElgasError), "the device error is raised")
            else:
                E.check(r.ok, "the response is delivered")
                check_payload(E, r.value, self.kind, self.body)
            r = E.run(self.c.next_event)
            E.check(r.ok and r.value is E.m.state.NEED_DATA, "once")


def connections(E, pairs, keys=(None, None), early=False, error=False, step=1):
    """two connections, any interleaving of their exchanges"""
    a, b = E.choose("kinds", pairs)
    order = E.choose("order", orders(4, 4)[::step])
    E.quiet_compare()
    if keys != (None, None):
        E.quiet_cipher()
        E.fixed_draws()
    A = Side(E, "a", a, keys[0], KID, error)
    B = Side(E, "b", b, keys[1], 5)
    if early:
        # both exist before either is used
        A.c, B.c = A.make(), B.make()
    for s in order:
        (A if s == "A" else B).step()
    # and both can go on
    for s in (B, A):
        s.k, s.error = 0, False
        if len(s.body) == 1:
            s.body = payload(E, s.kind, x=b"\x55")
            s.wire = wire_of(E, s.kind, s.body, s.key, KID)
        for _ in range(4):
            s.step()
    E.check(True, DONE)


class Busy(FakeLink):
    """a link that lets something else happen before a given call"""

    def __init__(self, script, at, what):
        FakeLink.__init__(self, script)
        self.at, self.what, self.n = at, what, 0

    def tick(self):
        self.n += 1
        if self.n == self.at:
            self.what()

    def send(self, data):
        self.tick()
        FakeLink.send(self, data)
        self.tick()

    def recv(self):
        self.tick()
        d = FakeLink.recv(self)
        self.tick()
        return d


def clients(E, pairs, key=(None, None)):
    """one client's operation while another's is under way"""
    a, b = E.choose("operations", pairs)
    at = E.choose("when", [1, 2, 3, 4, 5, 6])
    E.quiet_compare()
    if key != (None, None):
        E.quiet_cipher()
        E.fixed_draws()
    st = (False, E.m.constants.Archive.DATA, False)
    C = E.m.client.ElgasClient
    pa, pb = "Ab3$xY", "qW5%zT"
    ba, bb = (payload(E, k, x=quiet(E, E.bytes(n, 1)), n=4) for k, n in ((a, "a data"), (b, "b data")))
    res = []

    def other():
        res.append(call(E, B, b, st, True))
    wa, wb = answer(E, a, ba, key[0]), answer(E, b, bb, key[1])
    la = Busy([("recv", wa[:9]), ("recv", wa[9:])], at, other)
    lb = FakeLink([("recv", wb)])

    def client(link, pw, k):
        return C(transport=link, password=pw, password_id=801, encryption_key=k, encryption_key_id=KID) if k is not None else C(transport=link, password=pw, password_id=801)
    A = client(la, pa, key[0])
    B = client(lb, pb, key[1])
    out, fields = call(E, A, a, st, True)
    E.check(len(res) == 1, "both operations happen")
    for o, f, k, body, link, pw, ky in ((out, fields, a, ba, la, pa, key[0]), (res[0][0], res[0][1], b, bb, lb, pb, key[1])):
        check_result(E, o, k, body)
        E.check(len(link.sent) == 1, "exactly one frame is sent")
        check_request(E, link.sent[0], k, f, ky, pw)
    E.check(True, DONE)


def ciphers(E, n):
    """two cipher contexts used in turn"""
    S = E.m.security
    k1, k2 = E.bytes("key1", 16), E.bytes("key2", 16)
    a, b = S.CipherContext(E.byte("id1"), k1), S.CipherContext(E.byte("id2"), k2)
    x, y = E.bytes("a", n), E.bytes("b", n + 2)
    ex = E.run(a.encrypt, x)
    ey = E.run(b.encrypt, y)
    E.check(ex.ok and ey.ok, "encryption succeeds")
    dx = E.run(a.decrypt, ex.value)
    dy = E.run(b.decrypt, ey.value)
    E.check(dx.ok and dy.ok, "decryption succeeds")
    E.check(E.all([E.same(dx.value, x), E.same(dy.value, y)]), "decryption returns the payload")
    back = E.unaes(k1, k1, ex.value[3:])
    E.check(E.same(back[:n], x), "each under its own key")
    back = E.unaes(k2, k2, ey.value[3:])
    E.check(E.same(back[:n + 2], y), "each under its own key")
    E.check(True, DONE)


# ------------------------------------------------------------------ objects
def spoil(E, x):
    """change whatever of x can be changed"""
    if isinstance(x, list):
        for y in x:
            spoil(E, y)
        x.append("spoiled")
    elif isinstance(x, bytearray):
        x.extend(b"spoiled")
    elif isinstance(x, dict):
        for y in list(x.values()):
            spoil(E, y)
        x.clear()
    elif attr.has(type(x)):
        for f in attr.fields(type(x)):
            spoil(E, getattr(x, f.name))
            E.run(setattr, x, f.name, "spoiled")


def objects(E, name, tail):
    """decode one object, then another, spoil it, decode the first again"""
    d1 = make(E, name, tail, 1, tag="1 ", fixed=True)
    d2 = make(E, name, False, 2, tag="2 ", fixed=True)
    f = E.expose(name).from_bytes
    a = E.run(f, d1)
    E.check(a.ok, "an object is decoded")
    b = E.run(f, d2)
    E.check(b.ok, "an object is decoded")
    check_object(E, b.value, name, d2, False, 2)
    check_object(E, a.value, name, d1, tail, 1)
    spoil(E, b.value)
    c = E.run(f, d1)
    E.check(c.ok, "an object is decoded")
    check_object(E, a.value, name, d1, tail, 1)
    check_object(E, c.value, name, d1, tail, 1)
    spoil(E, c.value)
    check_object(E, a.value, name, d1, tail, 1)
    E.check(True, DONE)


def lists(E, names, same, tail):
    """lists parsed one after the other, by one parser or by two"""
    P = E.m.parser.ScadaParameterParser
    s1 = [(n, make(E, n, tail and bool(LAYOUTS[n][2]), 1, tag="1%d " % i, fixed=True), tail and bool(LAYOUTS[n][2]), 1) for i, n in enumerate(names)]
    s2 = [(n, make(E, n, False, 1, tag="2%d " % i, fixed=True), False, 1) for i, n in enumerate(reversed(names))]
    p = P()
    q = p if same else P()
    r1 = E.run(p.parse, wire(s1))
    r2 = E.run(q.parse, wire(s2))
    check_list(E, r2, s2)
    spoil(E, r2.value)
    check_list(E, r1, s1)
    bad = E.run(q.parse, wire(s2)[:-1])
    E.check(not bad.ok, "a list that is cut off is refused")
    r3 = E.run(p.parse, wire(s1))
    check_list(E, r3, s1)
    spoil(E, r3.value)
    check_list(E, r1, s1)
    r4 = E.run(q.parse, wire(s2))
    check_list(E, r4, s2)
    E.check(True, DONE)


def stored(E, name, tail):
    """dumps and loads one after the other"""
    T, F = E.expose(name).from_bytes, schema(E, name)
    d1, d2 = (make(E, name, tail, 1, tag=t, finite=True, fixed=f, flags=0x49) for t, f in (("1 ", True), ("2 ", b"")))
    a, b = E.run(T, d1), E.run(T, d2)
    E.check(a.ok and b.ok, "an object is decoded")
    S = F()
    da, db = E.run(S.dump, a.value), E.run(S.dump, b.value)
    E.check(da.ok and db.ok, "an object is dumped")
    la = E.run(S.load, da.value)
    lb = E.run(lambda: F().load(db.value))
    E.check(la.ok and lb.ok, "the dump is loaded")
    spoil(E, lb.value)
    spoil(E, db.value)
    check_object(E, a.value, name, d1, tail, 1)
    check_object(E, b.value, name, d2, tail, 1)
    lc = E.run(S.load, da.value)
    E.check(lc.ok, "the dump is loaded")
    for x in (la.value, lc.value):
        for n in fields_of(a.value):
            E.check(E.same(getattr(x, n), getattr(a.value, n)), "attribute " + n)
    spoil(E, la.value)
    again = E.run(S.dump, b.value)
    E.check(again.ok, "an object is dumped")
    ld = E.run(S.load, again.value)
    E.check(ld.ok, "the dump is loaded")
    for n in fields_of(b.value):
        E.check(E.same(getattr(ld.value, n), getattr(b.value, n)), "attribute " + n)
    E.check(True, DONE)


def responses(E, kind):
    """response payloads decoded one after the other"""
    A = E.m.application
    cls = {"values": A.ReadInstantaneousValuesResponse, "time": A.ReadTimeResponse, "parameters": A.ReadDeviceParametersResponse,
           "by_time": A.ReadArchiveByTimeResponse, "by_id": A.ReadArchiveResponse, "write_time": A.WriteTimeResponse}[kind]
    d1, d2 = payload(E, kind, x=E.bytes("1", 3), n=4), payload(E, kind, x=E.bytes("2", 2), n=4)
    a, b = E.run(cls.from_bytes, d1), E.run(cls.from_bytes, d2)
    E.check(a.ok and b.ok, "a payload is decoded")
    check_payload(E, a.value, kind, d1)
    check_payload(E, b.value, kind, d2)
    spoil(E, b.value)
    check_payload(E, a.value, kind, d1)
    c = E.run(cls.from_bytes, d1)
    E.check(c.ok, "a payload is decoded")
    check_payload(E, c.value, kind, d1)
    E.check(True, DONE)


def requests(E, kind):
    """two requests, encoded in turn"""
    a, b = request(E, kind, "Ab3$xY"), request(E, kind, "qW5%zT")
    E.fixed_draws()
    enc = [E.run(x.to_bytes) for x in (a, b, a)]
    E.check(all(x.ok for x in enc), "a request is encoded")
    n = 0 if kind == "time" else 10
    pw = [b"Ab3$xY", b"qW5%zT", b"Ab3$xY"]
    for x, p in zip(enc, pw):
        if n:
            E.check(E.same(x.value[:6], p), "its own password")
        E.check(E.same(x.value[n:], enc[0].value[n:]), "the same fields")
    E.check(True, DONE)


PAIRS = [(a, b) for a in KINDS for b in KINDS]
CASES = []
for _i in range(3):
    CASES.append(Case("connections-%d" % _i, connections, need=[DONE], pairs=PAIRS[_i::3], step=7, secs=120, bound="12 pairs of requests, every seventh of the 70 interleavings of their exchanges"))
CASES += [
    Case("connections-orders", connections, need=[DONE], pairs=[("values", "time"), ("time", "time"), ("by_id", "by_time")], secs=120, bound="three pairs of requests, all 70 interleavings of their exchanges"),
    Case("connections-early", connections, need=[DONE], pairs=[("time", "time"), ("by_id", "values")], early=True, secs=120, bound="both connections exist first; two pairs, all 70 interleavings"),
    Case("connections-error", connections, need=[DONE], pairs=[("time", "time"), ("by_id", "values")], error=True, step=3, secs=120, bound="one device answers with an error; two pairs, every third interleaving"),
    Case("connections-encrypted", connections, need=[DONE], pairs=[("time", "time"), ("time", "by_id")], keys=(KEY, KEY2), step=5, secs=120, bound="two fixed keys, any AES; two pairs, every fifth interleaving"),
    Case("connections-mixed", connections, need=[DONE], pairs=[("time", "time")], keys=(KEY, None), step=3, secs=120, bound="one encrypted and one plain, any AES; every third interleaving"),
]
OPS = ["values", "time", "write_time", "by_id", "by_time"]
CASES += [
    Case("clients", clients, need=[DONE], pairs=[(a, b) for a in OPS for b in OPS], secs=120, bound="every pair of operations (parameter reads aside), the other at each of six points"),
    Case("clients-encrypted", clients, need=[DONE], pairs=[("time", "values"), ("time", "time")], key=(KEY, KEY2), secs=120, bound="two pairs of operations, two fixed keys, any AES"),
    Case("clients-mixed", clients, need=[DONE], pairs=[("time", "values"), ("values", "time")], key=(None, KEY2), secs=120, bound="two pairs of operations, a plain and an encrypted client, any AES"),
]
for _n in (0, 5, 12, 14):
    CASES.append(Case("ciphers-%d" % _n, ciphers, need=[DONE], n=_n, secs=60, bound="two contexts, all 16-byte keys, %d and %d bytes" % (_n, _n + 2)))
for _name, (_t, _f, _tail) in LAYOUTS.items():
    CASES.append(Case("objects-" + _name, objects, need=[DONE], name=_name, tail=bool(_tail), secs=90, bound="all contents of two objects; constant texts"))
    CASES.append(Case("stored-" + _name, stored, need=[DONE], name=_name, tail=bool(_tail), secs=90, bound="all contents of two objects with finite floats; constant texts and flags"))
_N = list(LAYOUTS)
for _i in range(0, len(_N), 3):
    _three = [n for n in _N[_i:_i + 3] if n != "SystemParameters"]
    CASES.append(Case("lists-%d" % (_i // 3), lists, need=[DONE], names=_three, same=_i % 2 == 0, tail=True, secs=90, bound="lists of %s; constant texts" % ", ".join(_three)))
for _k in KINDS:
    CASES.append(Case("responses-" + _k, responses, need=[DONE], kind=_k, secs=60, bound="two payloads with two or three free bytes"))
    CASES.append(Case("requests-" + _k, requests, need=[DONE], kind=_k, secs=60, bound="two requests with different passwords"))
CASES += [Case("connections-all", connections, tier="thorough", need=[DONE], pairs=PAIRS[_i::6], secs=170, bound="six pairs of requests, all 70 interleavings") for _i in range(1)]
