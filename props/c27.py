from props.c20 import OPS, PW, answer, call, check_request, check_result, client, pieces
from props.conn import KEY, KID, payload
from props.fake import FakeLink
from symex.case import Case

PROPERTY = "C27"
ASSUMPTIONS = ["contents, check, CRC and cipher text bytes are no reserved characters (the escape of any content is C01's subject)",
               "the AES block cipher is an arbitrary permutation of 16-byte blocks for each key; the padding drawn is one fixed sequence"]
FRESH = "after connecting again the operation works as on a new client"


class Lost(Exception):
    pass


def failed_op(E, how, kind, key, tag=""):
    """script of receives for an operation that does not complete, and what it leaves to be read later"""
    X = E.m.exceptions
    body = payload(E, kind, x=b"\x55")
    w = answer(E, kind, body, key)
    lost = ("fail", X.CommunicationError("lost"))
    if how == "at once":
        return [lost]
    if how == "part":
        k = E.choose("received" + tag, [1, 3, 8, len(w) - 1])
        return [("recv", w[:k]), lost]
    if how == "noise":
        n = E.bytes("noise" + tag, 3)
        E.assume(E.all([x != r for x in n for r in (0x0D, 0x1B, 0x8D)]))
        return [("recv", b"\x02\xfe" + n), lost]
    if how == "noise, end":
        n = E.bytes("noise" + tag, 2)
        E.assume(E.all([x != r for x in n for r in (0x0D, 0x1B, 0x8D)]))
        return [("recv", n + b"\x0d"), lost]
    if how == "error":
        return [("recv", answer(E, kind, bytes([E.int("error", 1, 255) if tag == "0" else 0x22]), key))]
    if how == "other":
        # the answer to something else
        k = "time" if kind != "time" else "by_id"
        return [("recv", answer(E, k, payload(E, k, x=b"\x55"), key))]
    if how == "error and more":
        return [("recv", answer(E, kind, bytes([0x41]), key) + w)]
    if how == "reserved":
        # a part that holds reserved characters, and may end with one
        n = E.bytes("part" + tag, 2)
        return [("recv", E.choose("head", [b"", b"\x02\xfe\x86", w[:13]]) + n), lost] if E.choose("pieces", [1, 2]) == 1 else [("recv", w[:13] + n[:1]), ("recv", n[1:]), lost]
    raise AssertionError(how)


HOWS = ["at once", "part", "noise", "noise, end", "error", "other", "error and more"]


def reconnect(E, how, key=None, again=False, send=False, close=True, kinds=None):
    """operations fail, the client connects again, an operation works"""
    kind = E.choose("failing", kinds or OPS)
    nxt = E.choose("next", kinds or OPS)
    E.quiet_compare(("error",))
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    st = (False, E.m.constants.Archive.DATA, False)
    body = payload(E, nxt, x=b"\x55")
    link = FakeLink([])
    cl = client(E, link, key)
    E.check(E.run(cl.connect).ok, "connecting works")
    for i in range(2 if again else 1):
        link.script = failed_op(E, how, kind, key, str(i))
        if send:
            link.send_error = Lost("write")
        out, _ = call(E, cl, kind, st, True)
        E.check(not out.ok, "the operation fails")
        link.send_error = None
        if close:
            E.check(E.run(cl.disconnect).ok, "disconnecting works")
        E.check(E.run(cl.connect).ok, "connecting works")
    link.sent = []
    link.script = [("recv", p) for p in pieces(E, answer(E, nxt, body, key), "two")]
    out, fields = call(E, cl, nxt, st, True)
    check_result(E, out, nxt, body)
    E.check(len(link.sent) == 1, "exactly one frame is sent")
    check_request(E, link.sent[0], nxt, fields, key, PW)
    E.check(True, FRESH)


def after_success(E, key=None):
    """connecting again after a complete operation changes nothing"""
    kind = E.choose("first", OPS)
    nxt = E.choose("next", OPS)
    E.quiet_compare()
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    st = (False, E.m.constants.Archive.DATA, False)
    a, b = payload(E, kind, x=b"\x55"), payload(E, nxt, x=b"\x56")
    link = FakeLink([("recv", answer(E, kind, a, key))])
    cl = client(E, link, key)
    E.check(E.run(cl.connect).ok, "connecting works")
    out, _ = call(E, cl, kind, st, True)
    check_result(E, out, kind, a)
    E.check(E.run(cl.disconnect).ok, "disconnecting works")
    E.check(E.run(cl.connect).ok, "connecting works")
    link.sent, link.script = [], [("recv", answer(E, nxt, b, key))]
    out, fields = call(E, cl, nxt, st, True)
    check_result(E, out, nxt, b)
    E.check(len(link.sent) == 1, "exactly one frame is sent")
    check_request(E, link.sent[0], nxt, fields, key, PW)
    E.check(True, FRESH)


def failing_connect(E):
    """connecting fails first: the exception surfaces, later connecting works"""
    X = E.m.exceptions
    nxt = E.choose("next", OPS)
    E.quiet_compare()
    st = (False, E.m.constants.Archive.DATA, False)
    body = payload(E, nxt, x=b"\x55")
    link = FakeLink([])
    cl = client(E, link, None)
    state = {"fail": E.choose("failing", ["connect", "disconnect"])}
    real = link.connect, link.disconnect

    def fail(name, f):
        def g():
            if state["fail"] == name:
                state["fail"] = None
                raise X.CommunicationError(name)
            return f()
        return g
    link.connect, link.disconnect = fail("connect", real[0]), fail("disconnect", real[1])
    what = state["fail"]
    if what == "connect":
        out = E.run(cl.connect)
        E.check(out.raised(X.CommunicationError), "a failing link surfaces as an exception")
        E.check(E.run(cl.connect).ok, "connecting works")
    else:
        E.check(E.run(cl.connect).ok, "connecting works")
        link.script = failed_op(E, "at once", nxt, None)
        out, _ = call(E, cl, nxt, st, True)
        E.check(not out.ok, "the operation fails")
        out = E.run(cl.disconnect)
        E.check(out.raised(X.CommunicationError), "a failing link surfaces as an exception")
        E.check(E.run(cl.connect).ok, "connecting works")
    link.sent, link.script = [], [("recv", answer(E, nxt, body, None))]
    out, fields = call(E, cl, nxt, st, True)
    check_result(E, out, nxt, body)
    check_request(E, link.sent[0], nxt, fields, None, PW)
    E.check(True, FRESH)


CASES = [Case("%s" % h.replace(", ", "-").replace(" ", "-"), reconnect, need=[FRESH], how=h, secs=90, bound="every pair of operations (parameter reads aside), plain") for h in HOWS]
CASES += [Case("reserved", reconnect, need=[FRESH], how="reserved", kinds=["time"], secs=90, bound="any two bytes at the end of what was received, reading the time")]
CASES += [Case("twice-" + h.replace(", ", "-").replace(" ", "-"), reconnect, need=[FRESH], how=h, again=True, kinds=["values", "time", "by_id"] if h != "error" else ["time", "by_id"], secs=90, bound="two failures in a row, two or three operations, plain") for h in ("at once", "part", "error")]
CASES += [Case("send-fails", reconnect, need=[FRESH], how="at once", send=True, secs=90, bound="sending fails, every pair of operations"),
          Case("no-disconnect", reconnect, need=[FRESH], how="part", close=False, secs=90, bound="the link was lost, connecting without disconnecting"),
          Case("after-success", after_success, need=[FRESH], secs=90, bound="every pair of operations"),
          Case("failing-link", failing_connect, need=[FRESH], secs=60, bound="connecting or disconnecting fails once")]
for _h in ("part", "other", "error"):
    CASES.append(Case("encrypted-" + _h, reconnect, need=[FRESH], how=_h, key=KEY, kinds=["values", "time"], secs=120, bound="two operations, fixed key, any AES"))
CASES.append(Case("encrypted-all", reconnect, tier="thorough", need=[FRESH], how="part", key=KEY, secs=170, bound="every pair of operations, fixed key, any AES"))
CASES.append(Case("twice-all", reconnect, tier="thorough", need=[FRESH], how="part", again=True, secs=170, bound="two failures, every pair of operations"))
