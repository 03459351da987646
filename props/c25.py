from props.common import le
from symex.case import Case

PROPERTY = "C25"
ASSUMPTIONS = ["numbers from -2**20 to 2**20 (beyond that the same comparisons apply); passwords of up to 12 characters"]
GOOD = dict(source_address_1=1, source_address_2=2, destination_address_1=3, destination_address_2=4, password="123456", password_id=801)
LIMITS = dict(source_address_1=(0, 65535), source_address_2=(0, 255), destination_address_1=(0, 65535), destination_address_2=(0, 255), password_id=(801, 849))
W = 1 << 20


def make(E, kw):
    return E.run(lambda: E.m.connection.ElgasConnection(**kw))


def one(E, name):
    v = E.int(name, -W, W)
    out = make(E, dict(GOOD, **{name: v}))
    lo, hi = LIMITS[name]
    if E.all([v >= lo, v <= hi]):
        E.check(out.ok, "every value in range is accepted")
        E.check(getattr(out.value, name) == v, "the value is kept")
        if name != "password_id":
            sendable(E, out.value, dict(GOOD, **{name: v}))
    else:
        E.check(not out.ok, "a value out of range is refused")
        E.check(out.raised(ValueError), "refused with ValueError")


def sendable(E, conn, kw):
    s = E.run(conn.send, E.m.application.ReadTimeRequest())
    E.check(s.ok, "every accepted address configuration can be sent")
    un = E.m.utils.return_characters(s.value)
    E.check(E.same(un[6:12], le(kw["destination_address_1"], 2) + bytes([kw["destination_address_2"]]) + le(kw["source_address_1"], 2) + bytes([kw["source_address_2"]])),
            "the configured addresses are sent")


def joint(E):
    """all five at once"""
    kw = dict(GOOD)
    for n in LIMITS:
        kw[n] = E.int(n, -W, W)
    out = make(E, kw)
    good = E.all([E.all([kw[n] >= LIMITS[n][0], kw[n] <= LIMITS[n][1]]) for n in LIMITS])
    if out.ok:
        E.check(good, "accepted only when all are in range")
        E.check(E.all([getattr(out.value, n) == kw[n] for n in LIMITS]), "the values are kept")
    else:
        E.check(not good, "refused only when one is out of range")
        E.check(out.raised(ValueError), "refused with ValueError")


def password(E, n):
    kw = dict(GOOD, password=E.text("password", n, 0, 255))
    out = make(E, kw)
    if n <= 6:
        E.check(out.ok, "a password of up to 6 characters is accepted")
        E.check(out.value.password == kw["password"], "the password is kept")
    else:
        E.check(not out.ok, "a longer password is refused")
        E.check(out.raised(ValueError), "refused with ValueError")


def send_all(E, side):
    """both addresses of one side free; no byte of them reserved (C01 has those)"""
    kw = dict(GOOD)
    for n in (side + "_address_1", side + "_address_2"):
        kw[n] = E.int(n, 0, LIMITS[n][1])
    out = make(E, kw)
    E.check(out.ok, "every value in range is accepted")
    frame_part = le(kw["destination_address_1"], 2) + bytes([kw["destination_address_2"]]) + le(kw["source_address_1"], 2) + bytes([kw["source_address_2"]])
    for b in frame_part:
        E.assume(E.all([b != 0x0D, b != 0x1B, b != 0x8D]))
    s = E.run(out.value.send, E.m.application.ReadTimeRequest())
    E.check(s.ok, "every accepted address configuration can be sent")
    E.check(E.same(s.value[6:12], frame_part), "the configured addresses are sent")


CASES = [Case("one-" + n, one, name=n, need=["every value in range is accepted", "refused with ValueError"], secs=90, bound="every value from -2**20 to 2**20, the others in range") for n in LIMITS]
CASES.append(Case("joint", joint, need=["refused with ValueError", "the values are kept"], secs=90, bound="all five numbers from -2**20 to 2**20"))
CASES += [Case("send-" + x, send_all, side=x, need=["the configured addresses are sent"], secs=90, bound="all %s addresses in range without reserved bytes" % x) for x in ("source", "destination")]
CASES += [Case("password-%d" % n, password, n=n, need=["the password is kept"] if n <= 6 else ["refused with ValueError"], bound="every Latin-1 password of %d characters" % n) for n in range(0, 13)]
