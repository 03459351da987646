from props.c20 import answer, check_request
from props.c19 import const, entry
from props.conn import KEY, KID, payload
from props.fake import FakeLink
from symex.case import Case

PROPERTY = "C24"
ASSUMPTIONS = ["passwords of printable characters, quotes and backslashes among them, but no control characters; keys of 16 bytes; two clients are compared that differ in nothing but the secrets",
               "the AES block cipher is an arbitrary permutation of 16-byte blocks for each key; the padding drawn is one fixed sequence"]
OPS = ["values", "time", "write_time", "by_id", "by_time", "parameters"]
SAME = "the printed form does not depend on the secrets"


class QuietLink(FakeLink):
    """a link whose own printed form says nothing"""

    def __repr__(self):
        return "link"


def client(E, script, pw, key, kid=KID, style="keywords"):
    C = E.m.client.ElgasClient
    link = QuietLink(script)
    if style == "positional":
        cl = C(link, pw, 801, key, kid) if key is not None else C(link, pw, 801)
    elif key is None:
        cl = C(transport=link, password=pw, password_id=801)
    else:
        cl = C(transport=link, password=pw, password_id=801, encryption_key=key, encryption_key_id=kid)
    return cl, link


def printed(x, how):
    if how == "repr":
        return repr(x)
    if how == "str":
        return str(x)
    if how == "list":
        return repr([x])
    if how == "dict":
        return repr({"item": x})
    if how == "percent":
        return "%s and %r" % (x, x)
    return f"{x} {x!r}"


HOWS = ["repr", "str", "list", "dict", "percent", "format"]


def secrets(E, n1, n2, key):
    """two passwords and two keys"""
    pws = [E.text("password1", n1, 32, 126) if n1 else "", E.text("password2", n2, 32, 126) if n2 else ""]
    keys = [E.bytes("key1", 16), E.bytes("key2", 16)] if key else [None, None]
    return pws, keys


def same_print(E, a, b, how):
    x, y = E.run(printed, a, how), E.run(printed, b, how)
    E.check(x.ok and y.ok, "it can be printed")
    E.check(E.same(x.value, y.value), SAME)
    E.check(len(x.value) > 3, SAME)


def fresh(E, n1, n2, key, style="keywords"):
    """a client that has done nothing yet"""
    how = E.choose("printed by", HOWS)
    pws, keys = secrets(E, n1, n2, key)
    a, _ = client(E, [], pws[0], keys[0], style=style)
    b, _ = client(E, [], pws[1], keys[1], style=style)
    same_print(E, a, b, how)
    same_print(E, a.elgas_connection, b.elgas_connection, how)
    if key:
        E.check(a.elgas_connection.cipher_context is not None, "the key is in use")
        same_print(E, a.elgas_connection.cipher_context, b.elgas_connection.cipher_context, how)


def operate(E, cl, kind):
    import datetime
    A = E.m.constants.Archive
    t = datetime.datetime(2021, 3, 4, 5, 6, 7)
    if kind == "values":
        return E.run(cl.read_instantaneous_values)
    if kind == "time":
        return E.run(cl.read_time)
    if kind == "parameters":
        return E.run(cl.read_parameters)
    if kind == "by_id":
        return E.run(cl.read_archive, A.DATA, 7, 0x0A0B0C00)
    if kind == "by_time":
        return E.run(cl.read_archive_by_time, A.DATA, 7, t)
    return E.run(cl.write_time, t)


def spy(cl):
    """the requests the client hands to its connection"""
    got = []
    send = cl.elgas_connection.send

    def wrapped(event):
        got.append(event)
        return send(event)
    cl.elgas_connection.send = wrapped
    return got


def requests(E, kind, n1, n2, key=False, fails=None):
    """the requests of an operation, and the client before, during and after it"""
    how = E.choose("printed by", HOWS)
    E.quiet_compare()
    if key:
        E.quiet_cipher()
        E.fixed_draws()
    pws, keys = secrets(E, n1, n2, key)
    outs = []
    for pw, k in zip(pws, keys):
        if fails == "link":
            script = [("recv", b"\x02\xfe"), ("fail", OSError("link"))]
        elif fails == "device":
            script = [("recv", answer(E, kind, b"\x10", k))]
        else:
            body = payload(E, kind, x=b"\x55")
            if kind == "parameters":
                body = b"\x00\x00\x01\x00\x01" + entry(("Timer", const("Timer", False, 1), False))
            script = [("recv", answer(E, kind, body, k))]
        cl, link = client(E, script, pw, k)
        got = spy(cl)
        out = operate(E, cl, kind)
        E.check(out.ok if fails is None else not out.ok, "the operation ends as expected")
        E.check(len(got) == 1, "one request is made")
        outs.append((cl, got[0], link, out))
    (a, ra, la, oa), (b, rb, lb, ob) = outs
    same_print(E, ra, rb, how)
    same_print(E, a, b, how)
    same_print(E, a.elgas_connection, b.elgas_connection, how)
    if fails is not None:
        E.check(E.same(printed(oa.exc, "repr"), printed(ob.exc, "repr")), "a failure tells nothing either")
    fields = {"values": b"", "time": b"", "by_id": b"\x01\x00\x0c\x0b\x0a\x07\x00", "by_time": b"\x01\x07\x00\x07\x06\x05\x04\x03\x21", "write_time": b"\x07\x06\x05\x04\x03\x21\x04",
              "parameters": b"\x00\x00\x00\x04"}[kind]
    if n1 == 6:
        check_request(E, la.sent[0], kind, fields, keys[0], pws[0])
    if n2 == 6:
        check_request(E, lb.sent[0], kind, fields, keys[1], pws[1])


def kept(E, n, key, klen=16):
    """the secrets are kept as they were given"""
    pws, keys = secrets(E, n, n, key and klen == 16)
    if key and klen != 16:
        keys = [E.bytes("key", klen)]
    cl, _ = client(E, [], pws[0], keys[0])
    for x in (cl, cl.elgas_connection):
        E.check(isinstance(x.password, str), "the secrets are kept")
        E.check(E.same(x.password + "", pws[0]), "the secrets are kept")
        E.check(E.same(x.password.encode("latin-1"), pws[0].encode("latin-1")), "the secrets are kept")
        E.check(len(x.password) == n, "the secrets are kept")
        if key:
            E.check(isinstance(x.encryption_key, (bytes, bytearray)), "the secrets are kept")
            E.check(E.same(bytes(x.encryption_key), keys[0]), "the secrets are kept")
        else:
            E.check(x.encryption_key is None, "the secrets are kept")


def refused(E, n1, n2):
    """a refused password is not shown either"""
    pws, _ = secrets(E, n1, n2, False)
    a = E.run(client, E, [], pws[0], None)
    b = E.run(client, E, [], pws[1], None)
    E.check(not a.ok and not b.ok, "refused")
    if n1 == n2:
        # the length may be told
        E.check(E.same(str(a.exc.args[0]), str(b.exc.args[0])), "a failure tells nothing either")


CASES = []
for _a, _b in ((6, 6), (0, 6), (1, 5), (4, 4), (3, 2)):
    CASES.append(Case("fresh-%d-%d" % (_a, _b), fresh, n1=_a, n2=_b, key=False, need=[SAME], secs=120, bound="any two passwords of %d and %d characters" % (_a, _b)))
    CASES.append(Case("fresh-key-%d-%d" % (_a, _b), fresh, n1=_a, n2=_b, key=True, need=[SAME], secs=120, bound="any two passwords of %d and %d characters, any two keys" % (_a, _b)))
CASES.append(Case("fresh-positional", fresh, n1=6, n2=6, key=True, style="positional", need=[SAME], secs=120, bound="any two passwords of 6 characters, any two keys"))
for _k in OPS:
    CASES.append(Case("request-" + _k, requests, kind=_k, n1=6, n2=6, need=[SAME], secs=120, bound="any two passwords of 6 characters"))
    CASES.append(Case("request-lengths-" + _k, requests, kind=_k, n1=2, n2=6, need=[SAME], secs=120, bound="any two passwords of 2 and 6 characters"))
    CASES.append(Case("request-key-" + _k, requests, kind=_k, n1=6, n2=6, key=True, need=[SAME], secs=150, bound="any two passwords of 6 characters, any two keys"))
    CASES.append(Case("request-link-" + _k, requests, kind=_k, n1=6, n2=6, fails="link", need=[SAME], secs=120, bound="any two passwords of 6 characters, the link failing"))
    CASES.append(Case("request-device-" + _k, requests, kind=_k, n1=6, n2=6, fails="device", need=[SAME], secs=120, bound="any two passwords of 6 characters, the device answering with an error"))
for _n in (0, 1, 6):
    CASES.append(Case("kept-%d" % _n, kept, n=_n, key=False, need=["the secrets are kept"], secs=60, bound="every password of %d characters" % _n))
    CASES.append(Case("kept-key-%d" % _n, kept, n=_n, key=True, need=["the secrets are kept"], secs=60, bound="every password of %d characters and key" % _n))
for _n in (1, 8, 24, 32):
    CASES.append(Case("kept-key-6-%d" % _n, kept, n=6, key=True, klen=_n, need=["the secrets are kept"], secs=60, bound="every key of %d bytes" % _n))
