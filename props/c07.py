from props.common import KEY_IDS, RESERVED, le, quiet, quiet_bytes, ref_crc, ref_frame, ref_unescape
from props.conn import DST, KINDS, SERVICES, SRC, conn, payload, time6, wire_of
from symex.case import Case

PROPERTY = "C07"
ASSUMPTIONS = ["the AES block cipher is an arbitrary permutation of 16-byte blocks for each key; the filler and the padding are any the random source can return",
               "bulk field, address, check and cipher text bytes are no reserved characters, except in the cases where single bytes are free (the escape of any content is C01's subject)"]


def num(E, name, width, free):
    b = E.bytes(name, width)
    if name != free:
        quiet(E, b)
    v = 0
    for i in range(width):
        v = v + (b[i] << (8 * i))
    return v


def request(E, kind, pw, free):
    """a request and its documented fields"""
    A, C = E.m.application, E.m.constants
    if kind == "values":
        return A.ReadInstantaneousValuesRequest(password=pw), b""
    if kind == "time":
        return A.ReadTimeRequest(), b""
    if kind == "parameters":
        c, b = num(E, "count", 2, free), num(E, "buffer", 2, free)
        return A.ReadDeviceParametersRequest(password=pw, object_count=c, buffer_length=b), le(c, 2) + le(b, 2)
    if kind == "by_id":
        n, r = num(E, "amount", 2, free), num(E, "record", 4, None)
        a = E.choose("archive", [C.Archive.DATA, C.Archive.BILLING])
        return A.ReadArchiveRequest(password=pw, archive=a, amount=n, oldest_record_id=r), bytes([int(a)]) + le(r, 4) + le(n, 2)
    t = E.datetime("time", 2020, 2029)
    E.assume(E.all([t.second >= 10, t.hour >= 10, t.day >= 10]))
    f = time6(t)
    quiet(E, f)
    if kind == "by_time":
        n = num(E, "amount", 2, free)
        return A.ReadArchiveByTimeRequest(password=pw, archive=C.Archive.DAILY, amount=n, oldest_timestamp=t), bytes([3]) + le(n, 2) + f
    return A.WriteTimeRequest(password=pw, device_time=t), f + b"\x04"


def addresses(E, free):
    kw = dict(source_address_1=num(E, "src1", 2, free), source_address_2=num(E, "src2", 1, free),
              destination_address_1=num(E, "dst1", 2, free), destination_address_2=num(E, "dst2", 1, free))
    return kw, (kw["destination_address_1"], kw["destination_address_2"]), (kw["source_address_1"], kw["source_address_2"])


def app_ok(E, app, kind, pw, fields):
    if kind == "time":
        E.check(E.same(app, b""), "the time request is empty")
        return
    E.check(len(app) == 10 + len(fields), "the request's length")
    E.check(E.same(app[:6], pw.encode("latin-1")), "the request's password")
    E.check(E.same(app[10:], fields), "the request's fields")


def sent(E, c, req):
    out = E.run(c.send, req)
    E.check(out.ok, "a request is sent")
    wire = out.value
    E.check(isinstance(wire, (bytes, bytearray)), "bytes are sent")
    return wire


def plain(E, kind, free=None):
    E.quiet_compare((free,) if free else ())
    addr, dst, src = addresses(E, free)
    pw = E.text("password", 6)
    req, fields = request(E, kind, pw, free)
    wire = sent(E, conn(E, addr=addr, password=pw), req)
    un = ref_unescape(wire)
    E.check(len(un) >= 16, "a frame is sent")
    app = un[12:-4]
    E.check(E.same(un, ref_frame(0x84, SERVICES[kind], dst, src, app)), "a plain request frame with the service and the configured addresses")
    app_ok(E, app, kind, pw, fields)


def encrypted(E, kind, free=None, klen=16, enum=False, quiet_at=(), again=0):
    E.quiet_compare((free,) if free else ())
    addr, dst, src = addresses(E, free)
    pw = E.text("password", 6)
    req, fields = request(E, kind, pw, free)
    key = E.bytes("key", klen)
    if enum:
        name = E.choose("key id", list(KEY_IDS))
        named = getattr(E.m.security.EncryptionKeyId, name)
        kid = KEY_IDS[name]
    else:
        kid = quiet_bytes(E, "key id", 1)[0]
    E.quiet_cipher(quiet_at)
    c = conn(E, key, named if enum else kid, addr=addr, password=pw)
    one_encrypted(E, c, kind, req, fields, key, kid, dst, src, pw)
    if again:
        # the next request of the same connection
        C = E.m.state
        c.elgas_state.current_state = C.IDLE
        one_encrypted(E, c, kind, req, fields, key, kid, dst, src, pw)


def one_encrypted(E, c, kind, req, fields, key, kid, dst, src, pw):
    check_wire(E, sent(E, c, req), kind, fields, key, kid, dst, src, pw)


def check_wire(E, wire, kind, fields, key, kid, dst, src, pw):
    un = ref_unescape(wire)
    E.check(len(un) >= 19, "a frame is sent")
    pay = un[12:-4]
    E.check(E.same(un, ref_frame(0x85, SERVICES[kind], dst, src, pay)), "an encrypted request frame with the service and the configured addresses")
    n = 0 if kind == "time" else 10 + len(fields)
    E.check(E.same(pay[:3], le(n, 2) + bytes([kid])), "payload starts with the length and the key id")
    E.check(len(pay) == 3 + n + 2 + (-(n + 2)) % 16, "whole cipher blocks")
    content = E.unaes(key, key, pay[3:])
    app_ok(E, content[:n], kind, pw, fields)
    crc = ref_crc(pay[:3] + content[:-2])
    E.check(E.same(content[-2:], bytes([crc >> 8, crc & 255])), "the content ends with its CRC")


def configured(E, kind, which):
    """without a key the key id alone changes nothing; the connection without either sends plain requests"""
    E.quiet_compare()
    pw = E.text("password", 6)
    req, fields = request(E, kind, pw, None)
    c = conn(E, None, E.choose("key id", [1, 7]) if which == "id" else None, password=pw)
    wire = sent(E, c, req)
    un = ref_unescape(wire)
    E.check(len(un) >= 16, "a frame is sent")
    app = un[12:-4]
    E.check(E.same(un, ref_frame(0x84, SERVICES[kind], DST, SRC, app)), "a plain request frame with the service and the configured addresses")
    app_ok(E, app, kind, pw, fields)


def after_answer(E, kind):
    """a plain or foreign answer does not make the next request leave unencrypted"""
    E.quiet_compare()
    key, kid = E.bytes("key", 16), 5
    E.quiet_cipher()
    c = conn(E, key, kid)
    first = E.choose("first answered by", ["nothing", "plain", "error"])
    A = E.m.application
    one_encrypted(E, c, "time", A.ReadTimeRequest(), b"", key, kid, DST, SRC, "123456")
    if first == "plain":
        E.run(c.receive_data, wire_of(E, "time", payload(E, "time")))
        E.run(c.next_event)
    elif first == "error":
        E.run(c.receive_data, wire_of(E, "time", bytes([0x20])))
        E.run(c.next_event)
    pw = E.text("password", 6)
    req, fields = request(E, kind, pw, None)
    out = E.run(c.send, req)
    if not out.ok:
        E.check(first == "nothing", "the next request is accepted after an answer")
        return
    check_wire(E, out.value, kind, fields, key, kid, DST, SRC, pw)


def refused_key(E, kind, klen):
    """a key that cannot be used (it is also the 16-byte IV): the request is not sent in clear either"""
    E.quiet_compare()
    E.quiet_cipher()
    mk = E.run(lambda: conn(E, E.bytes("key", klen), 3))
    if not mk.ok:
        return
    out = E.run(mk.value.send, E.m.application.ReadTimeRequest())
    if out.ok:
        E.check(E.same(ref_unescape(out.value)[2:3], bytes([0x85])), "never a plain frame with a key configured")
    else:
        E.check(True, "refused")


CASES = []
QUIET = "every password of 6 printable characters, fields and addresses without reserved bytes"
for _k in KINDS:
    _done = "the time request is empty" if _k == "time" else "the request's fields"
    CASES.append(Case("plain-" + _k, plain, kind=_k, secs=120, need=[_done], bound=QUIET))
    CASES.append(Case("key-" + _k, encrypted, kind=_k, secs=150, need=["the content ends with its CRC"], bound="every 16-byte key and key id; " + QUIET))
    CASES.append(Case("id-only-" + _k, configured, kind=_k, which="id", secs=120, need=[_done], bound=QUIET))
    CASES.append(Case("none-" + _k, configured, kind=_k, which="none", secs=120, need=[_done], bound=QUIET))
    CASES.append(Case("after-" + _k, after_answer, kind=_k, secs=150, need=["the content ends with its CRC"], bound="second request of a connection whose first request was answered in three ways; " + QUIET))
for _k, _f in (("time", "dst1"), ("values", "src1"), ("parameters", "count"), ("by_id", "amount"), ("time", "src2"), ("time", "dst2"), ("parameters", "buffer")):
    CASES.append(Case("plain-free-%s-%s" % (_k, _f), plain, kind=_k, free=_f, secs=120, need=["a plain request frame with the service and the configured addresses"], bound="the same with the bytes of one field free"))
    CASES.append(Case("key-free-%s-%s" % (_k, _f), encrypted, kind=_k, free=_f, secs=150, need=["the content ends with its CRC"], bound="the same with the bytes of one field free"))
for _q in (0, 7, 15):
    CASES.append(Case("key-cipher-byte-%d" % _q, encrypted, kind="parameters", quiet_at=(_q,), secs=150, need=["the content ends with its CRC"], bound="one byte of the cipher text free"))
for _n in (24, 32):
    CASES.append(Case("key-%d-bytes" % _n, refused_key, kind="time", klen=_n, secs=60, bound="keys the cipher mode cannot use"))
CASES.append(Case("key-enum", encrypted, kind="values", enum=True, secs=150, need=["the content ends with its CRC"], bound="every named key id"))
CASES.append(Case("key-again", encrypted, kind="parameters", again=1, secs=150, need=["the content ends with its CRC"], bound="two requests of a connection"))
