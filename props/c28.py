"""Operations neither alter nor keep hold of the buffers, requests, objects and mappings they are given."""
import attr

from props.c15 import assemble, message
from props.c17 import check_list, wire
from props.c18 import fields_of, schema
from props.c20 import answer, call, check_request, check_result
from props.common import quiet, ref_frame, ref_unescape
from props.conn import DST, KEY, KID, KINDS, SERVICES, SRC, check_payload, conn, payload, request, wire_of
from props.fake import FakeLink
from props.layouts import LAYOUTS, check_object, make
from symex.case import Case

PROPERTY = "C28"
ASSUMPTIONS = ["contents, check, CRC and cipher text bytes of frames on a link are no reserved characters (the escape of any content is C01's subject); floats are finite where an object is stored; texts are constant",
               "the AES block cipher is an arbitrary permutation of 16-byte blocks for each key; the padding drawn is one fixed sequence"]
DONE = "neither altered nor kept"


def overwrite(buf):
    """what a caller does who uses a buffer again"""
    for i in range(len(buf)):
        buf[i] = buf[i] ^ 0xFF
    buf.extend(b"\x0d\x1b\x00")


def twice(E, f, data, check=None):
    """f(bytes) and f(bytearray): the same, the buffer unaltered and of no influence later on"""
    buf = bytearray(data)
    a = E.run(f, data)
    b = E.run(f, buf)
    E.check(a.ok == b.ok, "bytes and bytearray are treated alike")
    E.check(len(buf) == len(data), "the buffer is not altered")
    E.check(E.same(bytes(buf), data), "the buffer is not altered")
    if not a.ok:
        E.check(True, "refused")
        return None
    overwrite(buf)
    c = E.run(f, data)
    E.check(c.ok, "and again")
    for x in (b, c):
        E.check(E.same(x.value, a.value), "the same result")
    if check is not None:
        for x in (a, b, c):
            check(x.value)
    E.check(True, DONE)
    return a.value


def util(E, name, n, end=b""):
    twice(E, getattr(E.m.utils, name), E.bytes("data", n) + end)


def frame(E, cls, ftype, n, bad):
    d = E.bytes("data", n)
    svc = E.choose("service", sorted(SERVICES.values()))
    fr = ref_frame(ftype, svc, DST, SRC, d)
    if bad:
        p = E.choose("position", list(range(len(fr))))
        fr = fr[:p] + bytes([E.byte("x")]) + fr[p + 1:]

    def check(r):
        if not bad:
            E.check(E.same(r.data, d), "payload of the frame")
    f = getattr(E.m.frames, cls)
    # data may stay a buffer of its own: changing that one changes no other
    r = twice(E, f.from_bytes, fr, check)
    if r is not None and not bad:
        before = E.run(r.to_bytes)
        E.check(before.ok and E.same(before.value, fr), "the frame")
        again = E.run(r.to_bytes)
        E.check(again.ok and E.same(again.value, fr), "and again")


def frame_out(E, cls, n):
    """encoding a frame from a buffer"""
    d = E.bytes("data", n)
    f = getattr(E.m.frames, cls)
    S = E.m.constants.ServiceNumber

    def build(data):
        return f(service=S(0x6C), destination_address_1=1, destination_address_2=2, source_address_1=3, source_address_2=4, data=data).to_bytes()
    twice(E, build, d)


def response(E, kind, cut=0):
    A = E.m.application
    cls = {"values": A.ReadInstantaneousValuesResponse, "time": A.ReadTimeResponse, "parameters": A.ReadDeviceParametersResponse,
           "by_time": A.ReadArchiveByTimeResponse, "by_id": A.ReadArchiveResponse, "write_time": A.WriteTimeResponse}[kind]
    d = payload(E, kind, x=E.bytes("x", 3), n=4)
    twice(E, cls.from_bytes, d[:len(d) - cut], None if cut else lambda r: check_payload(E, r, kind, d))


def registration(E):
    f = message(E, 3, 3, 0, length=b"\x8d\x00", protocol=0)
    f["station"], f["firmware"] = "abc", "1.2"
    twice(E, E.m.application.CallRequest.from_bytes, assemble(f))


def parameter(E, name, tail):
    d = make(E, name, tail, 1, fixed=True)
    twice(E, E.expose(name).from_bytes, d, lambda o: check_object(E, o, name, d, tail, 1))
    T = E.p.enumerations.ParameterObjectType(LAYOUTS[name][0])
    twice(E, lambda x: E.p.factory.ParameterFactory.from_bytes(T, x), d, lambda o: check_object(E, o, name, d, tail, 1))


def short(E, name):
    """an object that is too short"""
    d = make(E, name, False, 1, fixed=True, flags=0x49)
    for n in (0, 1, len(d) // 2):
        buf = bytearray(d[:n])
        E.run(E.expose(name).from_bytes, buf)
        E.check(len(buf) == n and E.same(bytes(buf), d[:n]), "the buffer is not altered")
    E.check(True, DONE)


def lists(E, names, how):
    s = [(n, make(E, n, False, 1, tag="%d " % i, fixed=True), False, 1) for i, n in enumerate(names)]
    data = wire(s)
    P = E.m.parser.ScadaParameterParser
    buf = bytearray(data)
    p = P() if how == "arg" else P(buf)
    arg = (buf,) if how == "arg" else ()
    a = E.run(p.parse, *arg)
    check_list(E, a, s)
    E.check(len(buf) == len(data) and E.same(bytes(buf), data), "the buffer is not altered")
    b = E.run(p.parse, *arg)
    check_list(E, b, s)
    E.check(len(buf) == len(data) and E.same(bytes(buf), data), "the buffer is not altered")
    E.check(not E.run(P().parse, buf[:-1]).ok, "a list that is cut off is refused")
    overwrite(buf)
    check_list(E, a, s)
    check_list(E, b, s)
    E.check(True, DONE)


def ciphers(E, n):
    S = E.m.security
    key = E.bytes("key", 16)
    c = S.CipherContext(E.byte("id"), key)
    x = E.bytes("data", n)
    E.fixed_draws()
    buf = bytearray(x)
    e = E.run(c.encrypt, buf)
    E.check(e.ok, "encryption succeeds")
    E.check(len(buf) == n and E.same(bytes(buf), x), "the buffer is not altered")
    overwrite(buf)
    cipher = bytes(e.value)
    twice(E, c.decrypt, cipher, lambda d: E.check(E.same(d, x), "decryption returns the payload"))
    E.check(E.same(c.key, key), "the key is not altered")


def received(E, kind, key=None, cut=9):
    """the caller reads everything into one buffer of its own"""
    E.quiet_compare()
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    c = conn(E, key, KID if key is not None else None)
    body = payload(E, kind, x=quiet(E, E.bytes("data", 2)), n=4)
    w = wire_of(E, kind, body, key)
    cuts = E.choose("cuts", [(9,), (1, 17), (3, 4, 5), ()])
    E.check(E.run(c.send, request(E, kind)).ok, "the request is accepted")
    buf = bytearray()
    last = 0
    for k in list(cuts) + [len(w)]:
        part = w[last:k]
        buf[:] = part
        E.check(E.run(c.receive_data, buf).ok, "bytes are received")
        E.check(len(buf) == len(part) and E.same(bytes(buf), part), "the buffer is not altered")
        if k < len(w) and E.choose("look", [False, True]):
            r = E.run(c.next_event)
            E.check(r.ok and r.value is E.m.state.NEED_DATA, "more data is needed")
            E.check(len(buf) == len(part) and E.same(bytes(buf), part), "the buffer is not altered")
        last = k
    keep = bytes(buf)
    overwrite(buf)
    r = E.run(c.next_event)
    E.check(r.ok, "the response is delivered")
    check_payload(E, r.value, kind, body)
    E.check(len(buf) == len(keep) + 3, "the buffer is not altered")
    overwrite(buf)
    check_payload(E, r.value, kind, body)
    E.check(True, DONE)


def same_request(E, kind, key=None):
    """one request object, sent again and again"""
    E.quiet_compare()
    E.fixed_draws()
    if key is not None:
        E.quiet_cipher()
    ev = request(E, kind)
    keep = [(a.name, getattr(ev, a.name)) for a in attr.fields(type(ev))]
    body = payload(E, kind, x=quiet(E, E.bytes("data", 1)), n=4)
    c = conn(E, key, KID if key is not None else None)
    n = 0 if kind == "time" else 10
    first = None
    for i in range(3):
        r = E.run(c.send, ev)
        E.check(r.ok, "the request is accepted")
        for name, v in keep:
            E.check(E.same(getattr(ev, name), v), "the request is not altered")
        un = ref_unescape(r.value)
        pay = un[12:-4]
        E.check(E.same(un, ref_frame(0x84 if key is None else 0x85, SERVICES[kind], DST, SRC, pay)), "a request frame")
        if key is not None:
            pay = E.unaes(key, key, pay[3:])[:int.from_bytes(pay[:2], "little")]
        first = pay if first is None else first
        E.check(E.same(pay[:min(n, 6)] + pay[n:], first[:min(n, 6)] + first[n:]), "the same request each time")
        E.check(E.run(c.receive_data, wire_of(E, kind, body, key)).ok, "bytes are received")
        r = E.run(c.next_event)
        E.check(r.ok, "the response is delivered")
        check_payload(E, r.value, kind, body)
    E.check(True, DONE)


class Reusing(FakeLink):
    """a link that hands out one and the same buffer for everything it receives"""

    def __init__(self, script):
        FakeLink.__init__(self, script)
        self.buf = bytearray()
        self.given = None

    def recv(self):
        d = FakeLink.recv(self)
        if self.given is not None:
            self.intact = len(self.buf) == len(self.given)
        self.buf[:] = d
        self.given = d
        return self.buf


def client(E, kinds, key=None):
    kind = E.choose("operation", kinds)
    E.quiet_compare()
    E.fixed_draws()
    if key is not None:
        E.quiet_cipher()
    st = (False, E.m.constants.Archive.DATA, False)
    body = payload(E, kind, x=quiet(E, E.bytes("data", 1)), n=4)
    w = answer(E, kind, body, key)
    at = E.choose("cut", [1, 9, len(w) - 1])
    link = Reusing([("recv", w[:at]), ("recv", w[at:]), ("recv", w)])
    kw = dict(encryption_key=key, encryption_key_id=KID) if key is not None else {}
    C = E.m.client.ElgasClient(transport=link, password="Ab3$xY", password_id=801, **kw)
    out, fields = call(E, C, kind, st, True)
    check_result(E, out, kind, body)
    overwrite(link.buf)
    check_result(E, out, kind, body)
    out2, fields2 = call(E, C, kind, st, True)
    check_result(E, out2, kind, body)
    check_result(E, out, kind, body)
    E.check(len(link.sent) == 2, "exactly one frame is sent each time")
    for s, f in zip(link.sent, (fields, fields2)):
        check_request(E, s, kind, f, key, "Ab3$xY")
    E.check(True, DONE)


# ------------------------------------------------------------------ storage
def clone(x):
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clone(v) for v in x]
    return x


def alike(E, a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and E.all([alike(E, a[k], b[k]) for k in a])
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and E.all([alike(E, x, y) for x, y in zip(a, b)])
    return E.same(a, b)


def ruin(x):
    if isinstance(x, dict):
        for k in list(x):
            ruin(x[k])
            x[k] = "spoiled"
        x["more"] = 1
    elif isinstance(x, list):
        for y in x:
            ruin(y)
        x.append("spoiled")


def stored(E, name, tail):
    d = make(E, name, tail, 1, finite=True, fixed=E.choose("text", [True, b"", b"a"]), flags=0x49)
    o = E.run(E.expose(name).from_bytes, d)
    E.check(o.ok, "an object is decoded")
    o = o.value
    S = schema(E, name)
    m = E.run(lambda: S().dump(o))
    E.check(m.ok, "an object is dumped")
    check_object(E, o, name, d, tail, 1)
    m = m.value
    keep = clone(m)
    a = E.run(lambda: S().load(m))
    E.check(a.ok, "the dump is loaded")
    E.check(alike(E, m, keep), "the mapping is not altered")
    b = E.run(lambda: S().load(m))
    E.check(b.ok, "the dump is loaded again")
    E.check(alike(E, m, keep), "the mapping is not altered")
    again = E.run(lambda: S().dump(o))
    E.check(again.ok and alike(E, again.value, keep), "the dump is the same again")
    ruin(m)
    check_object(E, o, name, d, tail, 1)
    for x in (a, b):
        for n in fields_of(o):
            E.check(E.same(getattr(x.value, n), getattr(o, n)), "attribute " + n)
    E.check(alike(E, again.value, keep), "a dump of its own")
    E.check(True, DONE)


CASES = []
for _f, _n in (("calculate_lrc", 4), ("calculate_checksum", 4), ("calculate_drc", 4), ("calculate_crc", 3), ("return_characters", 3),
               ("return_characters", 0), ("from_bcd", 2), ("parse_ip_address", 4), ("parse_ip_address", 3), ("pretty_text", 3)):
    CASES.append(Case("%s-%d" % (_f, _n), util, need=["refused"] if (_f, _n) == ("parse_ip_address", 3) else [DONE], name=_f, n=_n, secs=60, bound="all byte strings of length %d" % _n))
CASES.append(Case("bytes_to_datetime", util, need=[DONE, "refused"], name="bytes_to_datetime", n=1, end=bytes([0x10, 0x52, 0x28, 0x02, 0x21]), secs=60, bound="the first byte is free"))
CASES.append(Case("escape_characters", util, need=[DONE], name="escape_characters", n=3, end=b"\x0d", secs=60, bound="all contents of 3 bytes"))
CASES.append(Case("escape_characters-free", util, need=[DONE, "refused"], name="escape_characters", n=2, secs=60, bound="all byte strings of length 2"))
for _c, _t in (("Request", 0x84), ("Response", 0x86), ("EncryptedRequest", 0x85), ("EncryptedResponse", 0x87)):
    CASES.append(Case("frame-" + _c, frame, need=[DONE], cls=_c, ftype=_t, n=3, bad=False, secs=60, bound="all services, payloads of 3 bytes"))
    CASES.append(Case("frame-bad-" + _c, frame, need=["refused"], cls=_c, ftype=_t, n=1, bad=True, secs=90, bound="one free byte at every position"))
    CASES.append(Case("frame-out-" + _c, frame_out, need=[DONE], cls=_c, n=4, secs=60, bound="payloads of 4 bytes"))
for _t in (0x86, 0x87):
    CASES.append(Case("factory-%02x" % _t, frame, need=[DONE], cls="ResponseFactory", ftype=_t, n=3, bad=False, secs=60, bound="all services, payloads of 3 bytes"))
for _k in KINDS:
    CASES.append(Case("response-" + _k, response, need=[DONE], kind=_k, secs=60, bound="three free bytes"))
    CASES.append(Case("received-" + _k, received, need=[DONE], kind=_k, secs=60, bound="two free bytes, four ways of receiving the response in parts"))
    CASES.append(Case("same-request-" + _k, same_request, need=[DONE], kind=_k, secs=60, bound="the same request three times, one free byte"))
for _k in ("values", "time", "parameters", "by_id"):
    CASES.append(Case("response-cut-" + _k, response, need=["refused"] if _k != "values" else [], kind=_k, cut=8, secs=60, bound="eight bytes cut off"))
CASES.append(Case("received-encrypted", received, need=[DONE], kind="time", key=KEY, secs=60, bound="a fixed key, any AES, two free bytes"))
CASES.append(Case("same-request-encrypted", same_request, need=[DONE], kind="by_id", key=KEY, secs=60, bound="a fixed key, any AES"))
CASES.append(Case("registration", registration, need=[DONE], secs=90, bound="all numbers free; constant texts"))
OPS = ["values", "time", "write_time", "by_id", "by_time"]
CASES.append(Case("client", client, need=[DONE], kinds=OPS, secs=60, bound="every operation (parameter reads aside), three ways of receiving, one free byte"))
CASES.append(Case("client-encrypted", client, need=[DONE], kinds=["time", "by_id"], key=KEY, secs=60, bound="two operations, a fixed key, any AES"))
for _n in (0, 3, 14):
    CASES.append(Case("ciphers-%d" % _n, ciphers, need=[DONE], n=_n, secs=60, bound="all 16-byte keys, %d bytes" % _n))
for _name, (_t, _f, _tail) in LAYOUTS.items():
    CASES.append(Case("object-" + _name, parameter, need=[DONE], name=_name, tail=bool(_tail), secs=60, bound="all contents; constant texts"))
    CASES.append(Case("short-" + _name, short, need=[DONE], name=_name, secs=60, bound="three lengths, all contents"))
    CASES.append(Case("stored-" + _name, stored, need=[DONE], name=_name, tail=False, secs=60, bound="all contents with finite floats; constant texts and flags"))
    if _tail:
        CASES.append(Case("stored-tail-" + _name, stored, need=[DONE], name=_name, tail=True, secs=60, bound="with the optional fields"))
_N = list(LAYOUTS)
for _i in range(0, len(_N), 3):
    _three = [n for n in _N[_i:_i + 3] if n != "SystemParameters"]
    CASES.append(Case("lists-%d" % (_i // 3), lists, need=[DONE], names=_three, how="arg" if _i % 2 else "constructor", secs=90, bound="lists of %s; constant texts" % ", ".join(_three)))
