from symex.case import Case

PROPERTY = "C12"
ASSUMPTIONS = ["timestamps are naive datetimes with whole seconds, as the protocol carries them"]
DAYS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def bcd(v):
    return ((v // 10) << 4) | (v % 10)


def encode(E):
    U = E.m.utils
    t = E.datetime("t", 2000, 2099)
    out = E.run(U.datetime_to_bytes, t)
    E.check(out.ok, "a timestamp of 2000-2099 is encoded")
    b = out.value
    E.check(len(b) == 6, "six bytes")
    E.check(E.all([b[0] == bcd(t.second), b[1] == bcd(t.minute), b[2] == bcd(t.hour), b[3] == bcd(t.day), b[4] == bcd(t.month), b[5] == bcd(t.year - 2000)]),
            "BCD of second, minute, hour, day, month, year")
    back = E.run(U.bytes_to_datetime, b)
    E.check(back.ok, "the encoded timestamp decodes")
    E.check(E.all([E.same(back.value[0], t), back.value[1] is False or E.same(back.value[1], False), E.same(back.value[2], False)]), "decodes back to itself without flags")


def refuse(E, y0, y1):
    U = E.m.utils
    t = E.datetime("t", y0, y1)
    out = E.run(U.datetime_to_bytes, t)
    E.check(not out.ok, "a timestamp of another century is refused")


def decode(E):
    """all 2**48 strings"""
    U = E.m.utils
    b = E.bytes("b", 6)
    hour = b[2] & 63
    vals = [b[0], b[1], hour, b[3], b[4], b[5]]
    num = [10 * (v >> 4) + (v & 15) for v in vals]
    digits = E.all([E.all([v & 15 <= 9, v >> 4 <= 9]) for v in vals])
    out = E.run(U.bytes_to_datetime, b)
    y = num[5]
    leap = y & 3 == 0
    last = E.table([0] + list(DAYS) + [0] * 3, num[4] & 15) + E.ite(E.all([leap, num[4] == 2]), 1, 0)
    real = E.all([num[0] <= 59, num[1] <= 59, num[2] <= 23, num[4] >= 1, num[4] <= 12, num[3] >= 1, num[3] <= last])
    if out.ok:
        E.check(digits, "only BCD digits are accepted")
        E.check(real, "only real dates and times are accepted")
        t, dst, sup = out.value
        E.check(E.all([t.second == num[0], t.minute == num[1], t.hour == num[2], t.day == num[3], t.month == num[4], t.year == 2000 + y]), "fields of the timestamp")
        E.check(E.all([E.same(bool(dst), b[2] & 0x80 != 0), E.same(bool(sup), b[2] & 0x40 != 0)]), "the two flags")
        E.check(t.microsecond == 0, "whole seconds")
        E.check(t.tzinfo is None, "no time zone")
    else:
        E.check(out.raised(ValueError), "refused with ValueError")
        E.check(E.any([not_(digits), not_(real)]), "every valid timestamp is accepted")


def not_(c):
    return not c


def length(E, n):
    out = E.run(E.m.utils.bytes_to_datetime, E.bytes("b", n))
    E.check(not out.ok, "another length is refused")
    E.check(out.raised(ValueError), "refused with ValueError")


CASES = [Case("encode", encode, need=["decodes back to itself without flags"], secs=120, bound="every second of 2000-01-01 to 2099-12-31"),
         Case("decode", decode, need=["fields of the timestamp", "every valid timestamp is accepted"], secs=120, bound="all 2**48 six-byte strings"),
         Case("before", refuse, y0=1, y1=1999, need=["a timestamp of another century is refused"], bound="every second of the years 1 to 1999"),
         Case("after", refuse, y0=2100, y1=9999, need=["a timestamp of another century is refused"], bound="every second of the years 2100 to 9999")]
CASES += [Case("length-%d" % n, length, n=n, need=["refused with ValueError"], bound="all %d-byte strings" % n) for n in (0, 1, 2, 3, 4, 5, 7, 8, 12)]
