from symex.case import Case

PROPERTY = "C23"
ASSUMPTIONS = []
SPACE = (9, 10, 11, 12, 13, 32)


def ref_text(data):
    """Latin-1 text before the last terminator, inner terminators as spaces, surrounding ASCII whitespace removed; list of character codes"""
    end = len(data)
    for i in range(len(data) - 1, -1, -1):
        if data[i] == 0:
            end = i
            break
    body = [32 if x == 0 else x for x in data[:end]]
    i, j = 0, len(body)
    while i < j and body[i] in SPACE:
        i += 1
    while j > i and body[j - 1] in SPACE:
        j -= 1
    return bytes(body[i:j])


def text(E, n, kind):
    d = E.bytes("field", n)
    out = E.run(E.m.utils.pretty_text, bytearray(d) if kind == "bytearray" else d)
    E.check(out.ok, "decoding never fails")
    E.check(isinstance(out.value, str), "the result is text")
    want = ref_text(d)
    got = E.run(lambda: out.value.encode("latin-1"))
    E.check(got.ok, "Latin-1 text")
    E.check(E.same(got.value, want), "text by the one rule")


def shaped(E, n):
    """long fields: text, terminator and rest, one free byte anywhere"""
    body = bytes((i * 7 + 40) % 200 + 33 for i in range(n))
    p = E.choose("position", list(range(n)))
    x = E.byte("x")
    z = E.choose("end", [n, n // 2, n - 1])
    d = (body[:z] + bytes(n - z))
    d = d[:p] + bytes([x]) + d[p + 1:]
    out = E.run(E.m.utils.pretty_text, bytearray(d))
    E.check(out.ok, "decoding never fails")
    E.check(E.same(out.value.encode("latin-1"), ref_text(d)), "text by the one rule")


def ip(E, kind):
    b = E.bytes("ip", 4)
    out = E.run(E.m.utils.parse_ip_address, bytearray(b) if kind == "bytearray" else b)
    E.check(out.ok, "four bytes are an address")
    E.check(out.value == str(b[0]) + "." + str(b[1]) + "." + str(b[2]) + "." + str(b[3]), "dotted decimal in wire order")


def ip_length(E, n):
    out = E.run(E.m.utils.parse_ip_address, E.bytes("ip", n))
    E.check(not out.ok, "another length is refused")
    E.check(out.raised(ValueError), "refused with ValueError")


def bcd(E, n, kind, before=b"", after=b""):
    d = before + E.bytes("bcd", n) + after
    out = E.run(E.m.utils.from_bcd, bytearray(d) if kind == "bytearray" else d)
    good = E.all([E.all([x & 15 <= 9, x >> 4 <= 9]) for x in d])
    if good:
        E.check(out.ok, "decimal digits are accepted")
        v = 0
        for x in d:
            v = 10 * (10 * v + (x >> 4)) + (x & 15)
        E.check(out.value == v, "decimal value")
    else:
        E.check(not out.ok, "a digit that is not decimal is refused")
        E.check(out.raised(ValueError), "refused with ValueError")


def to_bcd(E, lo, hi):
    """what the library encodes as BCD it decodes to the same number"""
    v = E.int("v", lo, hi)
    out = E.run(E.m.utils.to_bdc, v)
    E.check(out.ok, "a number is encoded")
    back = E.run(E.m.utils.from_bcd, out.value)
    E.check(back.ok, "decodes")
    E.check(back.value == v, "decodes to the same number")


CASES = [Case("text-%d" % n, text, n=n, kind="bytearray" if n % 2 else "bytes", secs=90, need=["text by the one rule"], bound="all %d-byte fields" % n) for n in range(0, 9)]
CASES += [Case("long-%d" % n, shaped, n=n, secs=90, need=["text by the one rule"], bound="%d-byte fields, one free byte at every position" % n) for n in (17, 33)]
CASES += [Case("ip-" + k, ip, kind=k, need=["dotted decimal in wire order"], bound="all four-byte addresses") for k in ("bytes", "bytearray")]
CASES += [Case("ip-length-%d" % n, ip_length, n=n, need=["refused with ValueError"], bound="all %d-byte strings" % n) for n in (0, 1, 2, 3, 5, 6, 8, 16)]
CASES += [Case("bcd-%d" % n, bcd, n=n, kind="bytearray" if n % 2 else "bytes", secs=90, need=["decimal value", "refused with ValueError"], bound="all %d-byte BCD strings" % n) for n in (1, 2, 3, 4)]
CASES += [Case("bcd-10-" + w, bcd, n=1 if w == "first" else 3, kind="bytes", before=x, after=y, secs=90, need=["decimal value", "refused with ValueError"], bound="10-byte BCD strings with one or three free bytes (%s)" % w)
          for w, x, y in (("first", b"", bytes([0x11, 0x23, 0x12, 0x34, 0x56, 0x78, 0x90, 0x98, 0x76])), ("last", bytes([0x00, 0x34, 0x56, 0x78, 0x90, 0x98, 0x76]), b""), ("middle", bytes([0, 0, 7, 0x11]), bytes([5, 0, 0])))]
CASES += [Case("to-bcd-%d" % lo, to_bcd, lo=lo, hi=hi, secs=60, need=["decodes to the same number"], bound="%d to %d" % (lo, hi)) for lo, hi in ((0, 99),)]
CASES += [Case("text-%d" % n, text, tier="thorough", n=n, kind="bytes", secs=160, need=["text by the one rule"], bound="all %d-byte fields" % n) for n in (9, 10, 12, 17)]
CASES += [Case("bcd-%d" % n, bcd, tier="thorough", n=n, kind="bytes", secs=160, need=["decimal value"], bound="all %d-byte BCD strings" % n) for n in (5, 6, 10)]
