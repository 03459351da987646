from props.common import ref_frame
from symex.case import Case

PROPERTY = "C02"
ASSUMPTIONS = ["service is a member of ServiceNumber, addresses are in range (two-byte 0..65535, one-byte 0..255), payload is bytes"]
TYPES = dict(Request=0x84, EncryptedRequest=0x85, Response=0x86, EncryptedResponse=0x87)
FIELDS = ("service", "destination_address_1", "destination_address_2", "source_address_1", "source_address_2", "data")


def payload_of(E, n):
    if n <= 40:
        return E.bytes("payload", n)
    head, mid = E.bytes("payload_head", 6), E.bytes("payload_mid", 3)
    rest = n - 9
    return head + bytes((7 * i + 3) & 255 for i in range(rest // 2)) + mid + bytes((11 * i + 1) & 255 for i in range(rest - rest // 2))


def frame(E, cls, n, services):
    fr = E.m.frames
    S = list(E.m.constants.ServiceNumber)
    svc = E.choose("service", S if services == "all" else S[:1])
    d1, d2 = E.int("dst1", 0, 65535), E.int("dst2", 0, 255)
    s1, s2 = E.int("src1", 0, 65535), E.int("src2", 0, 255)
    data = payload_of(E, n)
    K = getattr(fr, cls)
    mk = E.run(K, service=svc, destination_address_1=d1, destination_address_2=d2, source_address_1=s1, source_address_2=s2, data=data)
    E.check(mk.ok, "a frame can be built")
    out = E.run(mk.value.to_bytes)
    E.check(out.ok, "the frame is encoded")
    E.check(E.same(out.value, ref_frame(TYPES[cls], svc, (d1, d2), (s1, s2), data)), "the bytes follow the documented layout")
    back = E.run(K.from_bytes, out.value)
    E.check(back.ok, "the frame is decoded")
    want = (svc, d1, d2, s1, s2, data)
    E.check(E.all([E.same(getattr(back.value, f), w) for f, w in zip(FIELDS, want)]), "decoding returns the same fields")
    E.check(type(back.value) is K, "decoding returns the same kind of frame")
    if cls.endswith("Response"):
        r = E.run(fr.ResponseFactory.from_bytes, out.value)
        E.check(r.ok, "a response frame is recognised")
        E.check(type(r.value) is K, "plain or encrypted as its type byte says")
        E.check(E.all([E.same(getattr(r.value, f), w) for f, w in zip(FIELDS, want)]), "the recognised response has the same fields")


NEED = ["decoding returns the same fields"]
CASES = []
for _c in TYPES:
    for _n in (0, 1, 2, 3, 17, 40, 241, 300):
        CASES.append(Case("%s-%d" % (_c, _n), frame, need=NEED, secs=60, cls=_c, n=_n, services="all" if _n < 4 else "one",
                          bound="every %s with %d payload bytes%s, all addresses" % (_c, _n, " (9 of them free)" if _n > 40 else "")))
    for _n in (1100, 20000):
        CASES.append(Case("%s-%d" % (_c, _n), frame, need=NEED, secs=100, tier="thorough" if _n > 2000 else "quick", cls=_c, n=_n, services="one", bound="%s with %d payload bytes, 9 free, all addresses" % (_c, _n)))
