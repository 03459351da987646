from props.common import ARCHIVES, le
from symex.case import Case

PROPERTY = "C13"
ASSUMPTIONS = ["the filler drawn is any choice the random source can return",
               "timestamps are naive datetimes with whole seconds"]


def bcd(v):
    return ((v // 10) << 4) | (v % 10)


def time6(t):
    return bytes([bcd(t.second), bcd(t.minute), bcd(t.hour), bcd(t.day), bcd(t.month), bcd(t.year - 2000)])


def split(E, data, pw, fields):
    """password field and the rest"""
    E.check(len(data) == 10 + len(fields), "ten-byte password field followed by the fields")
    E.check(E.same(data[:len(pw)], pw.encode("latin-1")), "the password field starts with the password")
    E.check(E.same(data[10:], fields), "fields at their documented places")


def password(E, n):
    return E.text("password", n, 0, 255)


def build(E, kind, pw, wide=False):
    """request, its documented fields, whether they fit"""
    A, C = E.m.application, E.m.constants
    if kind == "values":
        return A.ReadInstantaneousValuesRequest(password=pw), b"", True
    if kind == "parameters":
        c, b = num(E, "count", 2, wide), num(E, "buffer", 2, wide)
        ok = E.all([fits(E, c, 2), fits(E, b, 2)])
        return A.ReadDeviceParametersRequest(password=pw, object_count=c, buffer_length=b), (lambda: le(c, 2) + le(b, 2)), ok
    if kind == "by_time":
        a, n, t = E.choose("archive", list(ARCHIVES)), num(E, "amount", 2, wide), E.datetime("oldest")
        return A.ReadArchiveByTimeRequest(password=pw, archive=getattr(C.Archive, a), amount=n, oldest_timestamp=t), (lambda: bytes([ARCHIVES[a]]) + le(n, 2) + time6(t)), fits(E, n, 2)
    if kind == "by_id":
        a, n, r = E.choose("archive", list(ARCHIVES)), num(E, "amount", 2, wide), num(E, "record", 4, wide)
        ok = E.all([fits(E, n, 2), fits(E, r, 4)])
        return A.ReadArchiveRequest(password=pw, archive=getattr(C.Archive, a), amount=n, oldest_record_id=r), (lambda: bytes([ARCHIVES[a]]) + le(r, 4) + le(n, 2)), ok
    if kind == "write_time":
        t = E.datetime("time")
        return A.WriteTimeRequest(password=pw, device_time=t, cryout=False), (lambda: time6(t) + b"\x04"), True


def num(E, name, width, wide):
    if wide:
        return E.int(name, -(1 << 8 * width), 1 << (8 * width + 3))
    return E.int(name, 0, (1 << 8 * width) - 1)


def fits(E, v, width):
    return E.all([v >= 0, v < 1 << 8 * width])


SERVICES = dict(values=0x64, parameters=0x70, by_time=0x7D, by_id=0x7C, write_time=0x71, time=0x6C)


def layout(E, kind, n=6):
    pw = password(E, n)
    req, fields, ok = build(E, kind, pw)
    E.check(int(req.service) == SERVICES[kind], "documented service number")
    out = E.run(req.to_bytes)
    E.check(out.ok, "a request with fitting fields is encoded")
    split(E, out.value, pw, fields() if callable(fields) else fields)


def two_instances(E, kind):
    """encoding one request does not depend on another, and encoding twice gives the same fields"""
    A, C = E.m.application, E.m.constants
    pw = password(E, 6)
    if kind == "by_time":
        t, n = E.datetime("oldest"), E.int("amount", 0, 65535)
        req, f = A.ReadArchiveByTimeRequest(password=pw, archive=C.Archive.DAILY, amount=n, oldest_timestamp=t), bytes([3]) + le(n, 2)
    elif kind == "write_time":
        t = E.datetime("time")
        req, f = A.WriteTimeRequest(password=pw, device_time=t), b""
    else:
        req, f, _ = build(E, kind, pw)
        f = f() if callable(f) else f
    other, _, _ = build(E, E.choose("other_kind", ["values", "parameters"]), E.text("other", 6, 0, 255))
    E.run(other.to_bytes)
    first, second = E.run(req.to_bytes), E.run(req.to_bytes)
    E.check(E.all([first.ok, second.ok]), "a request with fitting fields is encoded")
    if kind == "by_time":
        f = f + time6(t)
    elif kind == "write_time":
        f = time6(t) + b"\x04"
    split(E, first.value, pw, f)
    split(E, second.value, pw, f)


def range_(E, kind):
    pw = password(E, 6)
    req, fields, ok = build(E, kind, pw, wide=True)
    out = E.run(req.to_bytes)
    if ok:
        E.check(out.ok, "a request with fitting fields is encoded")
        split(E, out.value, pw, fields())
    else:
        E.check(not out.ok, "a value that does not fit is refused")


def century(E, kind, y0, y1):
    A, C = E.m.application, E.m.constants
    t = E.datetime("t", y0, y1)
    pw = password(E, 6)
    req = A.WriteTimeRequest(password=pw, device_time=t) if kind == "write_time" else A.ReadArchiveByTimeRequest(password=pw, archive=C.Archive.DATA, amount=1, oldest_timestamp=t)
    out = E.run(req.to_bytes)
    E.check(not out.ok, "a timestamp that does not fit is refused")


def archive_number(E, kind):
    """the archive field is one byte"""
    A, C = E.m.application, E.m.constants
    a = E.int("archive", -300, 1000)
    pw = password(E, 6)
    if kind == "by_id":
        req = A.ReadArchiveRequest(password=pw, archive=a, amount=1, oldest_record_id=2)
        rest = le(2, 4) + le(1, 2)
    else:
        t = E.datetime("oldest")
        req = A.ReadArchiveByTimeRequest(password=pw, archive=a, amount=1, oldest_timestamp=t)
        rest = le(1, 2) + time6(t)
    out = E.run(req.to_bytes)
    if E.all([a >= 0, a <= 255]):
        if out.ok:
            split(E, out.value, pw, bytes([a]) + rest)
        else:
            E.check(a > 10, "a known archive is accepted")
    else:
        E.check(not out.ok, "an archive number that does not fit is refused")


def foreign_password(E, n):
    """a character outside Latin-1 is refused"""
    p = E.choose("position", list(range(n)))
    pw = E.text("start", p, 0, 255) + E.choose("wide", ["\u0100", "\u0142", "\u20ac", "\u3042", "\U0001f600"]) + E.text("rest", n - p - 1, 0, 255)
    req = E.m.application.ReadInstantaneousValuesRequest(password=pw)
    out = E.run(req.to_bytes)
    E.check(not out.ok, "a password the protocol cannot carry is refused")


def long_password(E, kind, n):
    req, fields, ok = build(E, kind, E.text("password", n, 0, 255))
    out = E.run(req.to_bytes)
    E.check(not out.ok, "a password that does not fit is refused")


def time_request(E):
    req = E.m.application.ReadTimeRequest()
    out = E.run(req.to_bytes)
    E.check(out.ok, "the time request is encoded")
    E.check(E.same(out.value, b""), "the time request has no fields")
    E.check(int(req.service) == 0x6C, "documented service number")


def short_password(E, kind, n):
    pw = password(E, n)
    req, fields, ok = build(E, kind, pw)
    out = E.run(req.to_bytes)
    E.check(out.ok, "a request with fitting fields is encoded")
    f = fields() if callable(fields) else fields
    m = len(out.value) - len(f)
    E.check(E.all([E.same(out.value[:n], pw.encode("latin-1")), E.same(out.value[m:], f)]), "starts with the password and ends with the fields")
    E.check(m == 10 or m == n + 4, "the password is followed by four filler bytes")
    E.check(m == 10, "ten-byte password field")


def cry_out(E):
    pw, t, c = password(E, 6), E.datetime("time"), E.bool("cryout")
    req = E.m.application.WriteTimeRequest(password=pw, device_time=t, cryout=c)
    out = E.run(req.to_bytes)
    E.check(out.ok, "a request with fitting fields is encoded")
    E.check(len(out.value) == 17, "ten-byte password field, time and flags")
    E.check(E.same(out.value[10:16], time6(t)), "time at its place")
    E.check(E.all([out.value[16] & 4 == 4, out.value[16] & 0xFA == 0]), "only time sync and cry-out bits")
    E.check(E.same(out.value[16] & 1 == 1, bool(c)), "cry-out bit set exactly when asked for")


KINDS = ["values", "parameters", "by_time", "by_id", "write_time"]
CASES = [Case("time", time_request, need=["the time request has no fields"], bound="no inputs"),
         Case("cry-out", cry_out, need=["cry-out bit set exactly when asked for"], bound="every password of 6 Latin-1 characters, time and flag")]
for _k in KINDS:
    CASES.append(Case("layout-" + _k, layout, kind=_k, need=["fields at their documented places"], bound="every 6-character Latin-1 password, every field value in range"))
    CASES.append(Case("twice-" + _k, two_instances, kind=_k, need=["fields at their documented places"], bound="two requests of the kind, one encoded twice"))
    CASES += [Case("short-%s-%d" % (_k, n), short_password, kind=_k, n=n, need=["starts with the password and ends with the fields"], bound="every %d-character password" % n) for n in (0, 1, 3, 5)]
    CASES += [Case("long-%s-%d" % (_k, n), long_password, kind=_k, n=n, need=["a password that does not fit is refused"], bound="every %d-character password" % n) for n in (7, 8, 9, 10, 11)]
for _k in ("parameters", "by_time", "by_id"):
    CASES.append(Case("range-" + _k, range_, kind=_k, need=["a value that does not fit is refused", "fields at their documented places"], bound="numbers from -2**(8w) to 2**(8w+3)"))
for _k in ("by_time", "write_time"):
    CASES += [Case("century-%s-%d" % (_k, y0), century, kind=_k, y0=y0, y1=y1, need=["a timestamp that does not fit is refused"], bound="years %d to %d" % (y0, y1)) for y0, y1 in ((1, 1999), (2100, 9999))]
for _k in ("by_time", "by_id"):
    CASES.append(Case("archive-" + _k, archive_number, kind=_k, need=["an archive number that does not fit is refused", "fields at their documented places"], bound="archive numbers -300 to 1000"))
CASES += [Case("foreign-%d" % n, foreign_password, n=n, need=["a password the protocol cannot carry is refused"], bound="one of five characters outside Latin-1 at any position") for n in (1, 6)]
