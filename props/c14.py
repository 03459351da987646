from props.common import ARCHIVES
from symex.case import Case

PROPERTY = "C14"
ASSUMPTIONS = ["payload bytes are arbitrary; timestamps are decided by C12's reference"]


def unle(b):
    v = 0
    for i, x in enumerate(b):
        v = v + (x << (8 * i))
    return v


def num(v):
    return 10 * (v >> 4) + (v & 15)


def stamp(E, b):
    """does b (6 bytes) encode a real time"""
    vals = [b[0], b[1], b[2] & 63, b[3], b[4], b[5]]
    n = [num(v) for v in vals]
    days = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 0, 0, 0]
    last = E.table(days, n[4] & 15) + E.ite(E.all([n[5] & 3 == 0, n[4] == 2]), 1, 0)
    return E.all([E.all([v & 15 <= 9, v >> 4 <= 9]) for v in vals] + [n[0] <= 59, n[1] <= 59, n[2] <= 23, n[4] >= 1, n[4] <= 12, n[3] >= 1, n[3] <= last])


def check_time(E, t, dst, sup, b):
    E.check(E.all([t.second == num(b[0]), t.minute == num(b[1]), t.hour == num(b[2] & 63), t.day == num(b[3]), t.month == num(b[4]), t.year == 2000 + num(b[5])]), "time")
    E.check(E.all([E.same(bool(dst), b[2] & 0x80 != 0), E.same(bool(sup), b[2] & 0x40 != 0)]), "time flags")


def time_response(E, n):
    b = E.bytes("payload", n)
    out = E.run(E.m.application.ReadTimeResponse.from_bytes, b)
    if n < 7:
        E.check(not out.ok, "too short is refused")
        return
    good = stamp(E, b)
    if good:
        E.check(out.ok, "a well-formed payload is decoded")
        r = out.value
        check_time(E, r.time, r.is_dst, r.device_supports_dst, b)
        E.check(E.same(r.data_access_result, b[6:7]), "data access byte")
        E.check(E.same(r.extra_data, b[7:-2]), "extra data")
    else:
        E.check(not out.ok, "an invalid time is refused")


def archive(E, kind, n):
    A = E.m.application
    cls = A.ReadArchiveResponse if kind == "id" else A.ReadArchiveByTimeResponse
    b = E.bytes("payload", n)
    out = E.run(cls.from_bytes, b)
    if n < 5:
        E.check(not out.ok, "too short is refused")
        return
    if b[0] <= 10:
        E.check(out.ok, "a well-formed payload is decoded")
        r = out.value
        E.check(int(r.archive) == b[0], "archive")
        E.check(isinstance(r.archive, E.m.constants.Archive), "the archive is a named one")
        for name, k in ARCHIVES.items():
            if r.archive is getattr(E.m.constants.Archive, name):
                E.check(b[0] == k, "the archive of its name")
        E.check(r.oldest_record_id == unle(b[1:5]), "record id")
        E.check(E.same(r.data, b[5:]), "record bytes")
    else:
        E.check(not out.ok, "an unknown archive is refused")


def parameters(E, n):
    b = E.bytes("payload", n)
    out = E.run(E.m.application.ReadDeviceParametersResponse.from_bytes, b)
    if n < 5:
        E.check(not out.ok, "too short is refused")
        return
    E.check(out.ok, "a well-formed payload is decoded")
    r = out.value
    E.check(r.object_number == unle(b[:2]), "object number")
    E.check(r.object_amount == unle(b[2:4]), "object amount")
    E.check(E.same(bool(r.is_end), b[4] != 0), "end flag")
    E.check(E.same(r.data, b[5:]), "parameter bytes")


def values(E, n):
    b = E.bytes("payload", n)
    out = E.run(E.m.application.ReadInstantaneousValuesResponse.from_bytes, b)
    if n < 25:
        E.check(not out.ok, "too short is refused")
        return
    if stamp(E, b):
        E.check(out.ok, "a well-formed payload is decoded")
        r = out.value
        check_time(E, r.current_time, r.is_dst, r.supports_dst, b)
        E.check(E.same(r.data, b[6:n - 19]), "data")
        E.check(r.data_access == b[n - 19], "data access")
        E.check(E.same(r.status, b[n - 18:n - 10]), "status")
        E.check(E.same(r.summary_status, b[n - 10:n - 2]), "summary status")
        E.check(E.same(r.parameter_crc, b[n - 2:]), "parameter CRC")
    else:
        E.check(not out.ok, "an invalid time is refused")


def write_time(E, n):
    out = E.run(E.m.application.WriteTimeResponse.from_bytes, E.bytes("payload", n))
    E.check(out.ok, "a write time response is decoded")
    E.check(isinstance(out.value, E.m.application.WriteTimeResponse), "of its own kind")


def text(n):
    return "all %d-byte payloads" % n


CASES = []
for _n in list(range(0, 16)) + [40]:
    CASES.append(Case("time-%d" % _n, time_response, n=_n, need=["extra data"] if _n >= 7 else ["too short is refused"], bound=text(_n)))
for _n in list(range(0, 12)) + [64]:
    for _k in ("id", "time"):
        CASES.append(Case("archive-%s-%d" % (_k, _n), archive, kind=_k, n=_n, need=["record bytes", "an unknown archive is refused"] if _n >= 5 else ["too short is refused"], bound=text(_n)))
    CASES.append(Case("parameters-%d" % _n, parameters, n=_n, need=["parameter bytes"] if _n >= 5 else ["too short is refused"], bound=text(_n)))
for _n in list(range(0, 30)) + [60, 120]:
    CASES.append(Case("values-%d" % _n, values, n=_n, need=["parameter CRC"] if _n >= 25 else ["too short is refused"], bound=text(_n)))
CASES += [Case("write-time-%d" % _n, write_time, n=_n, need=["of its own kind"], bound=text(_n)) for _n in range(0, 4)]
for _n in (130, 260, 1030, 5000, 65520):
    _t = "quick" if _n < 6000 else "thorough"
    for _k in ("id", "time"):
        CASES.append(Case("archive-%s-long-%d" % (_k, _n), archive, tier=_t, kind=_k, n=_n, need=["record bytes"], bound=text(_n)))
    CASES.append(Case("parameters-long-%d" % _n, parameters, n=_n, need=["parameter bytes"], bound=text(_n)))
    CASES.append(Case("values-long-%d" % _n, values, tier=_t, n=_n, need=["data"], bound=text(_n)))
    CASES.append(Case("time-long-%d" % _n, time_response, tier=_t, n=_n, need=["extra data"], bound=text(_n)))
for _n in (200, 1000):
    CASES.append(Case("archive-id-%d" % _n, archive, tier="thorough", kind="id", n=_n, need=["record bytes"], bound=text(_n)))
    CASES.append(Case("archive-time-%d" % _n, archive, tier="thorough", kind="time", n=_n, need=["record bytes"], bound=text(_n)))
    CASES.append(Case("parameters-%d" % _n, parameters, tier="thorough", n=_n, need=["parameter bytes"], bound=text(_n)))
    CASES.append(Case("values-%d" % _n, values, tier="thorough", n=_n, need=["data"], bound=text(_n)))
