from props.conn import KEY, KID, KINDS, SERVICES, check_payload, conn, payload, request, wire_of
from symex.case import Case

PROPERTY = "C10"
ASSUMPTIONS = ["computed check, CRC and cipher text bytes are no reserved characters; the error byte takes every value",
               "the AES block cipher is an arbitrary permutation of 16-byte blocks for each key; the padding drawn is one fixed sequence"]
NAMES = ["WrongPasswordError", "SettingArchiveFull", "SwitchOff", "BlockedBuffer", "DataError", "CipherKeyError", "WrongEncryptionKeysError", "WriteError"]


def expected(E, e):
    X = E.m.exceptions
    for i in range(8):
        if (e >> i) & 1:
            return getattr(X, NAMES[i])
    return None


def feed(E, c, piece):
    E.check(E.run(c.receive_data, piece).ok, "bytes are received")


def refused(E, c, kind, e, key, trail=b"", cut=0):
    want = expected(E, e)
    w = wire_of(E, kind, bytes([e]), key) + trail
    if cut:
        feed(E, c, w[:cut])
        r = E.run(c.next_event)
        E.check(E.all([r.ok, r.value is E.m.state.NEED_DATA]), "no answer before its last byte")
    feed(E, c, w[cut:])
    r = E.run(c.next_event)
    E.check(not r.ok, "a device error is never a result")
    E.check(type(r.exc) is want, "the exception of the lowest error bit")
    E.check(isinstance(r.exc, E.m.exceptions.ElgasError), "it is an error of the package")
    r = E.run(c.next_event)
    E.check(E.all([r.ok, r.value is E.m.state.NEED_DATA]), "it is raised once")


def exchange(E, c, kind, key, x=b"\x33"):
    body = payload(E, kind, x=x, n=2)
    r = E.run(c.send, request(E, kind))
    E.check(r.ok, "the next request is sent")
    E.check(r.value[3] == SERVICES[kind], "the next request is sent")
    feed(E, c, wire_of(E, kind, body, key))
    r = E.run(c.next_event)
    E.check(r.ok, "the next response is delivered")
    check_payload(E, r.value, kind, body)


def start(E, key):
    E.quiet_compare(("error",))
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    return conn(E, key, KID if key is not None else None)


def error(E, kind, key=None):
    """one error, then any exchange"""
    nxt = E.choose("next", KINDS)
    trail = E.choose("trail", [b"", b"\x0d"])
    c = start(E, key)
    e = E.int("error", 1, 255)
    E.check(E.run(c.send, request(E, kind)).ok, "a request is sent")
    refused(E, c, kind, e, key, trail)
    exchange(E, c, nxt, key)


def unasked(E, key=None):
    c = start(E, key)
    e = E.int("error", 1, 255)
    refused(E, c, E.choose("kind", KINDS), e, key)
    exchange(E, c, "values", key)


def repeated(E, kind, key=None, n=3):
    """errors in a row, each to another request, received in pieces; then an exchange"""
    kinds = [kind] + [E.choose("kind%d" % i, ["time", "by_id"]) for i in range(1, n)]
    E.quiet_compare()
    c = start(E, key) if key is not None else conn(E)
    for i, k in enumerate(kinds):
        e = E.int("error%d" % i, 1, 255)
        E.assume(E.all([e != r for r in (0x0D, 0x1B, 0x8D)]))
        if i:
            E.assume(E.any([e == 1 << b for b in range(8)] + [e == 0xFF]))
        E.check(E.run(c.send, request(E, k)).ok, "the next request is sent")
        refused(E, c, k, e, key, b"", 7 * i)
    exchange(E, c, kind, key)


def client_error(E, op, key=None):
    """the client's operation raises it, and its next operation works"""
    import datetime
    from props.fake import FakeLink
    E.quiet_compare()
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    e = E.int("error", 1, 255)
    E.assume(E.all([e != r for r in (0x0D, 0x1B, 0x8D)]))
    want = expected(E, e)
    kind = op
    link = FakeLink([("recv", wire_of(E, kind, bytes([e]), key)), ("recv", wire_of(E, "time", payload(E, "time", x=b"\x41"), key))])
    cl = E.m.client.ElgasClient(transport=link, password="123456", password_id=801, encryption_key=key, encryption_key_id=KID if key is not None else None)
    C = E.m.constants
    t = datetime.datetime(2021, 3, 4, 5, 6, 7)
    if op == "values":
        r = E.run(cl.read_instantaneous_values)
    elif op == "time":
        r = E.run(cl.read_time)
    elif op == "parameters":
        r = E.run(cl.read_parameters)
    elif op == "by_time":
        r = E.run(cl.read_archive_by_time, C.Archive.DATA, 1, t)
    elif op == "by_id":
        r = E.run(cl.read_archive, C.Archive.DATA, 1, 1)
    else:
        r = E.run(cl.write_time, t)
    E.check(not r.ok, "a device error is never a result")
    E.check(type(r.exc) is want, "the exception of the lowest error bit")
    r = E.run(cl.read_time)
    E.check(r.ok, "the next operation works")
    E.check(r.value.second == 7, "the next operation works")


CASES = []
NEED = ["the exception of the lowest error bit", "the next response is delivered"]
for _key in (None, KEY):
    _s = "" if _key is None else "-encrypted"
    for _k in KINDS:
        CASES.append(Case("error%s-%s" % (_s, _k), error, kind=_k, key=_key, secs=120, need=NEED, bound="every error byte, then any exchange"))
        CASES.append(Case("repeated%s-%s" % (_s, _k), repeated, kind=_k, key=_key, n=2, secs=120, need=NEED, bound="2 errors in a row (the second: single bits and all bits), then an exchange"))
        CASES.append(Case("repeated-3%s-%s" % (_s, _k), repeated, kind=_k, key=_key, n=3, tier="thorough", secs=120, need=NEED, bound="3 errors in a row (later ones: single bits and all bits), then an exchange"))
        CASES.append(Case("client%s-%s" % (_s, _k), client_error, op=_k, key=_key, secs=90, need=["the next operation works"], bound="every error byte but the reserved ones"))
    CASES.append(Case("unasked" + _s, unasked, key=_key, secs=90, need=NEED, bound="every error byte with no request outstanding"))
