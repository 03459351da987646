from props.common import ref_frame
from symex.case import Case

PROPERTY = "C03"
ASSUMPTIONS = ["the input is bytes", "damaged frames start from frames built by the reference encoder of the documented layout"]
TYPES = dict(Request=0x84, EncryptedRequest=0x85, Response=0x86, EncryptedResponse=0x87)


def decoder(E, cls):
    return getattr(E.m.frames, cls).from_bytes


def anything(E, cls, n):
    w = E.bytes("wire", n)
    out = E.run(decoder(E, cls), w)
    if out.ok:
        E.check(n >= 16, "nothing shorter than a frame is accepted")
        again = E.run(out.value.to_bytes)
        E.check(again.ok, "what was accepted can be encoded")
        E.check(E.same(again.value, w), "re-encoding gives the accepted bytes")
        E.check(w[2] in (TYPES[cls],) if cls in TYPES else w[2] in (0x86, 0x87), "the type byte is the decoder's own")
    else:
        E.check(out.raised(ValueError), "refused with ValueError")


def lookalike(E, cls, n):
    """right head, length and end; the rest arbitrary"""
    t = TYPES.get(cls, 0x86)
    body = E.bytes("body", n - 8)
    w = bytes([2, 0xFE, t]) + E.bytes("service", 1) + bytes([(n - 1) & 255, (n - 1) >> 8]) + body + E.bytes("mid", 1) + b"\x0d"
    out = E.run(decoder(E, cls), w)
    if out.ok:
        again = E.run(out.value.to_bytes)
        E.check(again.ok, "what was accepted can be encoded")
        E.check(E.same(again.value, w), "re-encoding gives the accepted bytes")
    else:
        E.check(out.raised(ValueError), "refused with ValueError")


def valid(E, cls, n):
    svc = E.choose("service", [0x64, 0x6C, 0x87])
    t = TYPES.get(cls) or E.choose("type", [0x86, 0x87])
    if n <= 40:
        data = E.bytes("payload", n)
    else:
        data = E.bytes("payload", 12) + bytes((5 * i + 9) & 255 for i in range(n - 12))
    return ref_frame(t, svc, (E.int("dst1", 0, 65535), E.byte("dst2")), (E.int("src1", 0, 65535), E.byte("src2")), data)


def positions(n, k):
    if n <= 60:
        return list(range(k))
    return sorted(set((list(range(14)) if n < 500 else [0, 4, 5, 11]) + [n // 2, n // 2 + 1] + list(range(n - 6, k))))


def damaged(E, cls, n, how):
    f = valid(E, cls, n)
    L = len(f)
    if how == "changed":
        p = E.choose("position", positions(L, L))
        x = E.byte("new")
        E.assume(x != f[p])
        w = f[:p] + bytes([x]) + f[p + 1:]
        if cls == "ResponseFactory" and p == 2:
            E.assume(E.all([x != 0x86, x != 0x87]))
    elif how == "removed":
        p = E.choose("position", positions(L, L))
        w = f[:p] + f[p + 1:]
    elif how == "added":
        p = E.choose("position", positions(L, L + 1))
        w = f[:p] + E.bytes("new", 1) + f[p:]
    elif how == "cut":
        p = E.choose("position", positions(L, L))
        w = f[:p]
    else:
        p = E.choose("position", positions(L, L))
        w = f[:p] + b"\x0d"
        E.assume(len(w) != L)
    out = E.run(decoder(E, cls), w)
    E.check(not out.ok, "the damaged frame is not accepted")
    E.check(out.raised(ValueError), "refused with ValueError")


def pair(E, cls, n):
    """two bytes of the payload or addresses exchanged or changed so that single codes agree"""
    f = valid(E, cls, n)
    L = len(f)
    p = E.choose("first", list(range(3, L - 5)))
    q = E.choose("second", [j for j in range(3, L - 4) if j > p])
    w = f[:p] + bytes([f[q]]) + f[p + 1:q] + bytes([f[p]]) + f[q + 1:]
    out = E.run(decoder(E, cls), w)
    if out.ok:
        again = E.run(out.value.to_bytes)
        E.check(again.ok, "what was accepted can be encoded")
        E.check(E.same(again.value, w), "re-encoding gives the accepted bytes")
    else:
        E.check(out.raised(ValueError), "refused with ValueError")


CASES = []
ALL = list(TYPES) + ["ResponseFactory"]
for _c in ALL:
    for _n in range(0, 21):
        CASES.append(Case("any-%s-%d" % (_c, _n), anything, need=["refused with ValueError"] + (["re-encoding gives the accepted bytes"] if _n >= 16 else []), secs=60, cls=_c, n=_n,
                          tier="quick" if _n in (0, 1, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19) else "thorough", bound="all byte strings of %d bytes" % _n))
    for _n in (18, 32, 48):
        CASES.append(Case("lookalike-%s-%d" % (_c, _n), lookalike, need=["re-encoding gives the accepted bytes"], secs=60, cls=_c, n=_n, bound="all %d-byte strings with a frame's head, length field and end" % _n,
                          tier="quick" if _n < 40 else "thorough"))
    for _h in ("changed", "removed", "added", "cut", "cut-ended"):
        for _n in (0, 1, 5, 300) + ((520,) if _h == "changed" and _c in ("Response", "EncryptedResponse") else ()):
            CASES.append(Case("%s-%s-%d" % (_h, _c, _n), damaged, need=["the damaged frame is not accepted"], secs=60, cls=_c, n=_n, how=_h,
                              bound="every frame with %d payload bytes%s, one byte %s at every position" % (_n, " (12 free)" if _n > 40 else "", _h)))
    CASES.append(Case("swapped-%s-3" % _c, pair, need=["refused with ValueError"], secs=60, cls=_c, n=3, bound="frames with 3 payload bytes, any two bytes exchanged"))
