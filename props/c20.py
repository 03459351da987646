from props.c07 import app_ok, num
from props.common import le, quiet, ref_crc, ref_encrypt, ref_escape, ref_frame, ref_unescape
from props.conn import KEY, KID, SERVICES, check_payload, fixed_pad, payload, time6
from props.fake import FakeLink
from symex.case import Case

PROPERTY = "C20"
ASSUMPTIONS = ["arguments, contents, check, CRC and cipher text bytes are no reserved characters unless a case says so (the escape of any content is C01's subject)",
               "the AES block cipher is an arbitrary permutation of 16-byte blocks for each key; the padding drawn is one fixed sequence where the client encrypts"]
ZERO = (0, 0)
OPS = ["values", "time", "write_time", "by_id", "by_time"]
PW = "Ab3$xY"
DONE = "the answer is returned"


def frame(E, kind, body, key, service=None, dst=ZERO, src=ZERO):
    svc = SERVICES[kind] if service is None else service
    if key is None:
        return ref_frame(0x86, svc, dst, src, body)
    return ref_frame(0x87, svc, dst, src, ref_encrypt(E, key, KID, body, fixed_pad))


def answer(E, kind, body, key, service=None, dst=ZERO, src=ZERO):
    return ref_escape(frame(E, kind, body, key, service, dst, src))


def client(E, link, key, pw=PW, kid=KID):
    C = E.m.client.ElgasClient
    if key is None:
        return C(transport=link, password=pw, password_id=801)
    return C(transport=link, password=pw, password_id=801, encryption_key=key, encryption_key_id=kid)


def call(E, cl, kind, style, fix=False):
    """run one operation; also the documented fields of its request"""
    import datetime
    A = E.m.constants.Archive
    if kind == "values":
        return E.run(cl.read_instantaneous_values), b""
    if kind == "time":
        return E.run(cl.read_time), b""
    if kind == "by_id":
        a = A.DATA if fix else style[1]
        n, r = (7, 0x0A0B0C00) if fix else (num(E, "amount", 2, None), num(E, "record", 4, None))
        f = bytes([int(a)]) + le(r, 4) + le(n, 2)
        if style[0]:
            return E.run(lambda: cl.read_archive(archive=a, amount=n, oldest_record_id=r)), f
        return E.run(cl.read_archive, a, n, r), f
    if fix:
        t = datetime.datetime(2021, 3, 4, 5, 6, 7)
    else:
        t = E.datetime("t", 2020, 2029)
        E.assume(E.all([t.second >= 10, t.minute >= 10, t.hour >= 10, t.day >= 10, t.month >= 10]))
        quiet(E, time6(t))
    if kind == "by_time":
        a = A.DATA if fix else style[1]
        n = 7 if fix else num(E, "amount", 2, None)
        f = bytes([int(a)]) + le(n, 2) + time6(t)
        if style[0]:
            return E.run(lambda: cl.read_archive_by_time(archive=a, amount=n, oldest_timestamp=t)), f
        return E.run(cl.read_archive_by_time, a, n, t), f
    if style[0]:
        return E.run(lambda: cl.write_time(device_time=t, cryout=style[2])), time6(t) + b"\x04"
    return E.run(cl.write_time, t), time6(t) + b"\x04"


def styles(E, kind, few):
    A = E.m.constants.Archive
    kw = E.choose("keywords", [False, True]) if kind in ("by_id", "by_time", "write_time") else False
    ar = E.choose("archive", [A.EXTREME, A.DAILY, A.GAS_COMPOSITION] if few else list(A)) if kind in ("by_id", "by_time") else A.DATA
    cry = E.choose("cryout", [False, True]) if kind == "write_time" and kw else False
    return (kw, ar, cry)


def check_request(E, wire, kind, fields, key, pw, kid=KID):
    un = ref_unescape(wire)
    E.check(len(un) >= 16, "the request is a frame")
    pay = un[12:-4]
    if key is None:
        E.check(E.same(un, ref_frame(0x84, SERVICES[kind], ZERO, ZERO, pay)), "a request frame of the operation's service")
        app = pay
    else:
        E.check(E.same(un, ref_frame(0x85, SERVICES[kind], ZERO, ZERO, pay)), "a request frame of the operation's service")
        n = 0 if kind == "time" else 10 + len(fields)
        E.check(E.same(pay[:3], le(n, 2) + bytes([kid])), "encrypted with the caller's key")
        content = E.unaes(key, key, pay[3:])
        crc = ref_crc(pay[:3] + content[:-2])
        E.check(E.same(content[-2:], bytes([crc >> 8, crc & 255])), "encrypted with the caller's key")
        app = content[:n]
    app_ok(E, app, kind, pw, fields)


def check_result(E, out, kind, body):
    E.check(out.ok, "the call succeeds")
    v = out.value
    if kind == "write_time":
        E.check(v is None or type(v).__name__ == "WriteTimeResponse", DONE)
    elif kind == "time":
        E.check(E.same(time6(v), b"\x07\x06\x05" + body[3:6]), DONE)
    else:
        check_payload(E, v, kind, body)
        if kind == "values":
            E.check(E.same(time6(v.current_time), b"\x07\x06\x05" + body[3:6]), DONE)
            E.check(E.same(v.status, body[-18:-10]), DONE)
            E.check(E.same(v.summary_status, body[-10:-2]), DONE)
            E.check(E.same(v.data_access, body[-19]), DONE)
            E.check(E.all([E.same(v.is_dst, False), E.same(v.supports_dst, True)]), DONE)
        E.check(True, DONE)


def pieces(E, w, how):
    if how == "whole":
        return [w]
    if how == "return first":
        return [b"\x0d", w]
    if how == "two":
        return [w[:9], w[9:]]
    if how == "last byte":
        return [w[:-1], w[-1:]]
    if how == "return, three":
        return [b"\x0d", w[:1], w[1:14], w[14:]]
    return [w[i:i + 1] for i in range(len(w))]


def full_payload(E, kind, n, x=None):
    return payload(E, kind, x=x if x is not None else quiet(E, E.bytes("content", 1)), n=n)


def one(E, kind, key=None, hows=None, n=6, free=False, symkey=False, few=True, dst=ZERO, src=ZERO):
    """one operation"""
    st = styles(E, kind, few)
    how = E.choose("pieces", hows or ["whole", "return first", "two", "last byte", "return, three"])
    E.quiet_compare(("free content",) if free else ())
    kid = KID
    if symkey:
        key = E.bytes("key", 16)
    if key is not None:
        E.quiet_cipher()
        if not symkey:
            E.fixed_draws()
    pw = E.text("password", 6) if key is None or symkey else PW
    x = E.bytes("free content", 1) if free else None
    body = full_payload(E, kind, n, x)
    link = FakeLink([("recv", p) for p in pieces(E, answer(E, kind, body, key, None, dst, src), how)])
    cl = client(E, link, key, pw, kid)
    out, fields = call(E, cl, kind, st)
    check_result(E, out, kind, body)
    E.check(len(link.sent) == 1, "exactly one frame is sent")
    E.check(link.log == ["send"] + ["recv"] * len(pieces(E, answer(E, kind, body, key, None, dst, src), how)), "exactly one frame is sent and the answer received")
    check_request(E, link.sent[0], kind, fields, key, pw, kid)


def content(E, kind, what):
    """free numbers of the response"""
    E.quiet_compare()
    b = bytes(payload(E, kind, x=b"\x55"))
    if what == "record":
        body = b[:1] + quiet(E, E.bytes("record", 4)) + b[5:]
    elif what == "archive":
        body = bytes([int(E.choose("archive", list(E.m.constants.Archive)))]) + b[1:]
    elif what == "data":
        body = b[:5] + quiet(E, E.bytes("data", 12))
    elif what == "empty":
        body = b[:5]
    elif what == "time":
        flags = E.choose("summer time", [0, 0x40, 0x80, 0xC0])
        t = E.datetime("device time", 2020, 2029)
        E.assume(E.all([t.second >= 10, t.hour >= 10, t.day >= 10]))
        tb = quiet(E, time6(t))
        body = quiet(E, tb[:2] + bytes([tb[2] | flags]) + tb[3:]) + b[6:]
    elif what == "values":
        body = b[:6] + quiet(E, E.bytes("data", 5) + E.bytes("tail", 19))
    else:
        body = quiet(E, E.bytes("ignored", 3))
    link = FakeLink([("recv", answer(E, kind, body, None))])
    cl = client(E, link, None)
    out, fields = call(E, cl, kind, (False, E.m.constants.Archive.DATA, False), True)
    E.check(out.ok, "the call succeeds")
    v = out.value
    if what in ("record", "archive", "data", "empty"):
        E.check(E.all([int(v.archive) == body[0], v.oldest_record_id == body[1] + (body[2] << 8) + (body[3] << 16) + (body[4] << 24)]), DONE)
        E.check(E.same(v.data, body[5:]), DONE)
    elif what == "time":
        if kind == "time":
            E.check(E.all([v.year == t.year, v.month == t.month, v.day == t.day, v.hour == t.hour, v.minute == t.minute, v.second == t.second]), DONE)
        else:
            E.check(E.same(v.current_time, t), DONE)
            E.check(E.all([E.same(v.is_dst, flags >= 128), E.same(v.supports_dst, flags in (0x40, 0xC0))]), DONE)
    elif what == "values":
        E.check(E.same(v.data, body[6:11]), DONE)
        E.check(E.all([E.same(v.data_access, body[11]), E.same(v.status, body[12:20]), E.same(v.summary_status, body[20:28]), E.same(v.parameter_crc, body[28:])]), DONE)
    else:
        E.check(True, DONE)
    E.check(len(link.sent) == 1, "exactly one frame is sent")


def device_error(E, kind, key=None):
    """the device answers with an error; the next operation works"""
    nxt = E.choose("next", OPS)
    how = E.choose("pieces", ["whole", "two"]) if key is None else "two"
    E.quiet_compare()
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    code = E.int("error", 1, 255)
    quiet(E, bytes([code]))
    body = payload(E, nxt, x=b"\x55")
    link = FakeLink([("recv", p) for p in pieces(E, answer(E, kind, bytes([code]), key), how)] + [("recv", answer(E, nxt, body, key))])
    cl = client(E, link, key)
    st = (False, E.m.constants.Archive.DATA, False)
    out, fields = call(E, cl, kind, st, True)
    E.check(not out.ok, "a device error surfaces as an exception")
    E.check(out.raised(E.m.exceptions.ElgasError), "a device error surfaces as an exception")
    E.check(len(link.sent) == 1, "exactly one frame is sent")
    check_request(E, link.sent[0], kind, fields, key, PW)
    out, fields = call(E, cl, nxt, st, True)
    check_result(E, out, nxt, body)
    E.check(len(link.sent) == 2, "exactly one frame is sent by the next operation")
    check_request(E, link.sent[1], nxt, fields, key, PW)


def link_fails(E, kind, key=None):
    """sending or one of the receives fails"""
    X = E.m.exceptions
    at = E.choose("failing call", ["send", 0, 1, 2])
    exc = E.choose("failure", [X.CommunicationError("lost"), RuntimeError("not connected"), OSError("link"), ValueError("link"), KeyError("link")])
    E.quiet_compare()
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    w = answer(E, kind, payload(E, kind, x=quiet(E, E.bytes("content", 1))), key)
    good = [("recv", w[:7]), ("recv", w[7:-1]), ("recv", w[-1:])]
    if at != "send":
        good[at] = ("fail", exc)
    link = FakeLink(good)
    if at == "send":
        link.send_error = exc
    cl = client(E, link, key)
    out, fields = call(E, cl, kind, (False, E.m.constants.Archive.DATA, False), True)
    E.check(not out.ok, "a failed transport surfaces as an exception")
    E.check(out.exc is exc or isinstance(out.exc, X.ElgasError), "a failed transport surfaces as an exception")
    E.check(link.log == ["send"] + (["recv"] * (at + 1) if at != "send" else []), "nothing more is tried on a failed link")


def foreign(E, kind):
    """the device's answer is one to another request"""
    other = E.choose("answered", [k for k in OPS if k != kind])
    E.quiet_compare()
    link = FakeLink([("recv", answer(E, other, payload(E, other, x=quiet(E, E.bytes("content", 1))), None))])
    cl = client(E, link, None)
    out, fields = call(E, cl, kind, (False, E.m.constants.Archive.DATA, False), True)
    E.check(not out.ok, "an answer to another request is never returned")


def noise(E, kind, key=None):
    """damaged and foreign frames come before the answer"""
    what = E.choose("noise", ["lone return", "damaged", "damaged and returns", "request"])
    E.quiet_compare()
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    body = full_payload(E, kind, 2)
    w = answer(E, kind, body, key)
    bad = frame(E, kind, b"\x20\x21\x22\x23\x24\x25", None)
    k = E.int("damage", 1, 255)
    bad = bad[:14] + bytes([bad[14] ^ k]) + bad[15:]
    quiet(E, bad[14:15])
    bad = ref_escape(bad)
    first = {"lone return": [b"\x0d", b"\x0d"], "damaged": [bad], "damaged and returns": [b"\x0d", bad + b"\x0d", b"\x0d"],
             "request": [ref_escape(ref_frame(0x84, SERVICES[kind], ZERO, ZERO, b"123456!!!!"))]}[what]
    link = FakeLink([("recv", p) for p in first + [w]])
    cl = client(E, link, key)
    out, fields = call(E, cl, kind, (False, E.m.constants.Archive.DATA, False), True)
    check_result(E, out, kind, body)
    E.check(len(link.sent) == 1, "exactly one frame is sent")


def sequence(E, n, key=None):
    """operations in a row with one client"""
    kinds = [E.choose("op%d" % i, OPS) for i in range(n)]
    E.quiet_compare()
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    bodies = [payload(E, k, x=quiet(E, E.bytes("content", 1))) if i == 0 else payload(E, k, x=bytes([80 + i])) for i, k in enumerate(kinds)]
    link = FakeLink([("recv", answer(E, k, b, key)) for k, b in zip(kinds, bodies)])
    cl = client(E, link, key)
    for i in range(n):
        out, fields = call(E, cl, kinds[i], (i % 2 == 1, E.m.constants.Archive.DATA, False), True)
        check_result(E, out, kinds[i], bodies[i])
        E.check(len(link.sent) == i + 1, "exactly one frame is sent by each operation")
        check_request(E, link.sent[i], kinds[i], fields, key, PW)


def trailing(E, kind, key=None):
    """more bytes come with an operation's answer; the operation after it has its own"""
    what = E.choose("behind", ["again", "another", "error", "part", "noise"])
    op = E.choose("then", OPS)
    E.quiet_compare()
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    bodies = [payload(E, kind, x=quiet(E, E.bytes("content", 1))), payload(E, op, x=b"\x52")]
    w = answer(E, kind, bodies[0], key)
    own = answer(E, op, bodies[1], key)
    more = {"again": w, "another": answer(E, op, payload(E, op, x=b"\x33"), key), "error": answer(E, op, b"\x01", key), "part": own[:9], "noise": b"\x41\x0d\x42"}[what]
    link = FakeLink([("recv", w + more), ("recv", own)])
    cl = client(E, link, key)
    for i, k in enumerate((kind, op)):
        out, fields = call(E, cl, k, (i == 1, E.m.constants.Archive.DATA, False), True)
        check_result(E, out, k, bodies[i])
        E.check(len(link.sent) == i + 1, "exactly one frame is sent by each operation")


def two_clients(E, kind):
    """two clients do not disturb each other"""
    other = E.choose("other", OPS)
    E.quiet_compare()
    b1, b2 = payload(E, kind, x=quiet(E, E.bytes("content", 1))), payload(E, other, x=b"\x55")
    w = answer(E, kind, b1, None)
    l1, l2 = FakeLink([("recv", w[:9]), ("fail", OSError("link"))]), FakeLink([("recv", answer(E, other, b2, None))])
    c1, c2 = client(E, l1, None), client(E, l2, None, "zzz999")
    st = (False, E.m.constants.Archive.DATA, False)
    out, f = call(E, c1, kind, st, True)
    E.check(not out.ok, "a failed transport surfaces as an exception")
    out, f = call(E, c2, other, st, True)
    check_result(E, out, other, b2)
    check_request(E, l2.sent[0], other, f, None, "zzz999")
    check_request(E, l1.sent[0], kind, call_fields(E, kind), None, PW)


def call_fields(E, kind):
    import datetime
    t = time6(datetime.datetime(2021, 3, 4, 5, 6, 7))
    return {"values": b"", "time": b"", "by_id": b"\x01" + le(0x0A0B0C00, 4) + le(7, 2), "by_time": b"\x01" + le(7, 2) + t, "write_time": t + b"\x04"}[kind]


def life(E):
    """connect and disconnect are the transport's"""
    link = FakeLink([])
    cl = client(E, link, None)
    E.check(link.log == [], "nothing happens on the link by itself")
    E.check(E.run(cl.connect).ok, "connect")
    E.check(link.log == ["connect"], "connect")
    E.check(E.run(cl.disconnect).ok, "disconnect")
    E.check(link.log == ["connect", "disconnect"], "disconnect")
    exc = E.choose("failure", [E.m.exceptions.CommunicationError("no"), RuntimeError("already")])

    def bad():
        raise exc
    link.connect = link.disconnect = bad
    for f in (cl.connect, cl.disconnect):
        E.check(E.run(f).raised(type(exc)), "a failing transport surfaces")


def unencodable(E, kind):
    """arguments no request can carry: the call raises and nothing is sent; the client stays usable"""
    import datetime
    E.quiet_compare()
    body = payload(E, "time", x=quiet(E, E.bytes("content", 1)))
    link = FakeLink([("recv", answer(E, "time", body, None))])
    cl = client(E, link, None)
    A = E.m.constants.Archive
    if kind == "by_id":
        n, r = E.int("amount", 0, 1 << 20), E.int("record", 0, 1 << 40)
        E.assume(E.any([n > 65535, r >= 1 << 32]))
        out = E.run(cl.read_archive, A.DATA, n, r)
    elif kind == "by_time":
        n = E.int("amount", 65536, 1 << 20)
        out = E.run(cl.read_archive_by_time, A.DATA, n, datetime.datetime(2021, 3, 4, 5, 6, 7))
    else:
        y = E.choose("year", [1999, 2100, 1900])
        out = E.run(cl.write_time, datetime.datetime(y, 3, 4, 5, 6, 7))
    E.check(not out.ok, "arguments no request can carry are refused")
    E.check(link.sent == [], "nothing is sent")
    out, f = call(E, cl, "time", (False, A.DATA, False), True)
    check_result(E, out, "time", body)


CASES = []
Q = "every password, argument and a free content byte without reserved bytes, the answer in one to four reads"
for _k in OPS:
    _app = "the time request is empty" if _k == "time" else "the request's fields"
    _n = [DONE, _app]
    CASES.append(Case("plain-" + _k, one, kind=_k, hows=["whole", "return first", "last byte"], secs=120, need=_n, bound=Q))
    CASES.append(Case("encrypted-" + _k, one, kind=_k, key=KEY, hows=["return, three"], secs=120, need=_n, bound="constant key and password; arguments and a free content byte; four reads"))
    CASES.append(Case("key-" + _k, one, kind=_k, symkey=True, hows=["return first"], tier="quick" if _k in ("values", "time") else "thorough", secs=120, need=_n, bound="every key; " + Q))
    CASES.append(Case("archives-" + _k, one, kind=_k, few=False, hows=["two"], secs=120, need=_n, bound="every archive; " + Q)) if _k in ("by_id", "by_time") else None
    CASES.append(Case("addressed-" + _k, one, kind=_k, hows=["whole"], dst=(0x0102, 3), src=(0x0405, 6), secs=120, need=_n, bound="the answer carries the device's own address"))
    CASES.append(Case("byte-wise-" + _k, one, kind=_k, tier="quick" if _k in ("values", "by_id") else "thorough", hows=["bytes"], n=2, secs=120, need=_n, bound="one read for each byte"))
    CASES.append(Case("error-" + _k, device_error, kind=_k, secs=120, need=["exactly one frame is sent by the next operation"], bound="every error byte but reserved ones, each next operation"))
    CASES.append(Case("error-encrypted-" + _k, device_error, kind=_k, key=KEY, tier="quick" if _k in ("time", "by_time") else "thorough", secs=120, need=["exactly one frame is sent by the next operation"], bound="every error byte but reserved ones, each next operation"))
    CASES.append(Case("link-" + _k, link_fails, kind=_k, secs=120, need=["nothing more is tried on a failed link"], bound="the send or one of three receives fails in five ways"))
    CASES.append(Case("foreign-" + _k, foreign, kind=_k, secs=120, need=["an answer to another request is never returned"], bound="an answer to each other operation"))
    CASES.append(Case("noise-" + _k, noise, kind=_k, secs=120, need=[DONE], bound="line noise of four kinds before the answer"))
    CASES.append(Case("two-clients-" + _k, two_clients, kind=_k, secs=120, need=[DONE], bound="each operation of a second client while the first one's is broken off"))
CASES.append(Case("link-encrypted", link_fails, kind="by_id", key=KEY, secs=120, need=["nothing more is tried on a failed link"], bound="the send or one of three receives fails in five ways"))
CASES.append(Case("noise-encrypted", noise, kind="by_time", key=KEY, secs=120, need=[DONE], bound="line noise of four kinds before the answer"))
for _k, _w in (("by_id", "record"), ("by_time", "record"), ("by_id", "archive"), ("by_time", "archive"), ("by_id", "data"), ("by_time", "data"), ("by_id", "empty"), ("by_time", "empty"),
               ("time", "time"), ("values", "time"), ("values", "values"), ("write_time", "ignored")):
    CASES.append(Case("content-%s-%s" % (_k, _w), content, kind=_k, what=_w, secs=120, need=[DONE], bound="every content of this part of the answer without reserved bytes"))
for _k in ("by_id", "by_time", "write_time"):
    CASES.append(Case("unencodable-" + _k, unencodable, kind=_k, secs=120, need=["nothing is sent"], bound="amounts, record ids and years no request can carry"))
for _k in OPS:
    CASES.append(Case("behind-" + _k, trailing, kind=_k, secs=120, need=[DONE], bound="an answer read together with what follows it: itself again, an answer of another kind, an error, a part, noise; then each operation"))
CASES.append(Case("behind-encrypted", trailing, kind="by_id", key=KEY, secs=120, need=[DONE], bound="an answer read together with what follows it; then each operation"))
CASES.append(Case("sequence-2", sequence, n=2, secs=120, need=[DONE], bound="two operations in a row, every pair"))
CASES.append(Case("sequence-2-encrypted", sequence, n=2, key=KEY, secs=120, need=[DONE], bound="two operations in a row, every pair"))
CASES.append(Case("sequence-3", sequence, n=3, tier="thorough", secs=170, need=[DONE], bound="three operations in a row, every triple"))
CASES.append(Case("free-by_id", one, kind="by_id", free=True, hows=["whole"], n=2, secs=120, need=[DONE], bound="one content byte of any value, also a reserved one"))
CASES.append(Case("free-values", one, kind="values", free=True, hows=["whole"], n=2, secs=120, need=[DONE], bound="one content byte of any value, also a reserved one"))
CASES.append(Case("life", life, secs=60, need=["a failing transport surfaces"], bound="connect and disconnect, working and failing"))
for _k in OPS:
    if _k != "write_time":
        for _n in (250, 1030, 5000):
            CASES.append(Case("long-%d-%s" % (_n, _k), one, tier="quick" if _n < 2000 else "thorough", kind=_k, n=_n, hows=["whole", "two"], secs=120, need=[DONE], bound="answers of more than %d bytes; " % _n + Q))
