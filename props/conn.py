"""A peer for ElgasConnection: requests, responses and what they look like on the wire."""
from props.common import le, quiet, ref_encrypt, ref_escape, ref_frame

KINDS = ["values", "time", "parameters", "by_time", "by_id", "write_time"]
SERVICES = dict(values=0x64, parameters=0x70, by_time=0x7D, by_id=0x7C, write_time=0x71, time=0x6C)
ADDR = dict(source_address_1=0x0102, source_address_2=3, destination_address_1=0x0405, destination_address_2=6)
DST, SRC = (0x0405, 6), (0x0102, 3)
KEY = bytes(range(0x41, 0x51))
KID = 3


def bcd(v):
    return ((v // 10) << 4) | (v % 10)


def time6(t):
    return bytes([bcd(t.second), bcd(t.minute), bcd(t.hour), bcd(t.day), bcd(t.month), bcd(t.year - 2000)])


def conn(E, key=None, kid=None, addr=None, password="123456"):
    kw = dict(addr or ADDR, password=password, password_id=801)
    if key is not None:
        kw["encryption_key"] = key
    if kid is not None:
        kw["encryption_key_id"] = kid
    return E.m.connection.ElgasConnection(**kw)


def request(E, kind, pw="123456"):
    """a concrete request"""
    import datetime
    A, C = E.m.application, E.m.constants
    t = datetime.datetime(2021, 3, 4, 5, 6, 7)
    if kind == "values":
        return A.ReadInstantaneousValuesRequest(password=pw)
    if kind == "time":
        return A.ReadTimeRequest()
    if kind == "parameters":
        return A.ReadDeviceParametersRequest(password=pw, object_count=0, buffer_length=1024)
    if kind == "by_time":
        return A.ReadArchiveByTimeRequest(password=pw, archive=C.Archive.DATA, amount=1, oldest_timestamp=t)
    if kind == "by_id":
        return A.ReadArchiveRequest(password=pw, archive=C.Archive.DATA, amount=1, oldest_record_id=1)
    return A.WriteTimeRequest(password=pw, device_time=t)


RESPONSE_CLASS = dict(values="ReadInstantaneousValuesResponse", time="ReadTimeResponse", parameters="ReadDeviceParametersResponse",
                      by_time="ReadArchiveByTimeResponse", by_id="ReadArchiveResponse", write_time="WriteTimeResponse")
STAMP = bytes([0x07, 0x06, 0x45, 0x04, 0x03, 0x21])


def payload(E, kind, tag="", x=None, n=6):
    """a valid response payload; x: bytes for its variable part (default: a free byte that is not reserved)"""
    if x is None:
        x = quiet(E, E.bytes(tag + "data", 1))
    rest = bytes((9 * i + 33) & 127 for i in range(n))
    if kind == "values":
        return STAMP + x + rest + bytes([0x41]) + bytes(range(32, 40)) + bytes(range(50, 58)) + b"\x12\x34"
    if kind == "time":
        return STAMP + b"\x02" + x + rest
    if kind == "parameters":
        return le(1, 2) + le(2, 2) + b"\x00" + x + rest
    if kind in ("by_time", "by_id"):
        return b"\x01" + le(0x01020304, 4) + x + rest
    return b""


def check_payload(E, event, kind, body):
    """event carries what the payload says"""
    E.check(type(event).__name__ == RESPONSE_CLASS[kind], "an event of the response's kind")
    if kind == "values":
        E.check(E.same(event.data, body[6:len(body) - 19]), "data of the response")
        E.check(E.same(event.parameter_crc, body[len(body) - 2:]), "data of the response")
        E.check(event.current_time.second == 7, "time of the response")
    elif kind == "time":
        E.check(E.same(event.extra_data, body[7:-2]), "data of the response")
        E.check(event.time.second == 7, "time of the response")
    elif kind == "parameters":
        E.check(E.all([event.object_number == 1, event.object_amount == 2]), "numbers of the response")
        E.check(E.same(event.data, body[5:]), "data of the response")
    elif kind in ("by_time", "by_id"):
        E.check(E.all([int(event.archive) == 1, event.oldest_record_id == 0x01020304]), "numbers of the response")
        E.check(E.same(event.data, body[5:]), "data of the response")


def fixed_pad(n):
    return bytes(40 + i for i in range(n))


def frame_of(E, kind, body, key=None, kid=KID, service=None):
    """unescaped response frame"""
    svc = SERVICES[kind] if service is None else service
    if key is None:
        fr = ref_frame(0x86, svc, SRC, DST, body)
    else:
        fr = ref_frame(0x87, svc, SRC, DST, ref_encrypt(E, key, kid, body, fixed_pad))
    return fr


def wire_of(E, kind, body, key=None, kid=KID, service=None):
    fr = frame_of(E, kind, body, key, kid, service)
    return ref_escape(fr)
