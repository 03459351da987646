from props.common import ref_crc, ref_drc, ref_lrc, ref_sum
from symex.case import Case

PROPERTY = "C04"
ASSUMPTIONS = ["data is bytes or bytearray"]


REFS = dict(lrc=ref_lrc, checksum=ref_sum, drc=ref_drc, crc=ref_crc)


def codes(E, which, n, kind):
    d = E.bytes("d", n)
    f = getattr(E.m.utils, "calculate_" + which)
    out = E.run(f, bytearray(d) if kind == "bytearray" else d)
    E.check(out.ok, "a code is returned")
    E.check(out.value == REFS[which](d), "value equals the definition")
    E.check(E.all([out.value >= 0, out.value <= (0xFFFF if which == "crc" else 255)]), "value fits its width")


def long(E, which, n):
    """free bytes at the start, middle and end of long data"""
    k = n // 2
    d = E.bytes("a", 3) + bytes((31 * i + 7) & 255 for i in range(k)) + E.bytes("b", 3) + bytes((17 * i + 201) & 255 for i in range(n - k - 9)) + E.bytes("c", 3)
    out = E.run(getattr(E.m.utils, "calculate_" + which), d)
    E.check(out.ok, "a code is returned")
    E.check(out.value == REFS[which](d), "value equals the definition")


CASES = []
for _w in ("lrc", "checksum", "drc", "crc"):
    for _n in (100, 127, 128, 129, 255, 256, 257, 300, 520, 1060, 4200):
        if _w == "crc" and _n not in (129, 256, 300) or _w == "drc" and _n > 2000:
            continue
        CASES.append(Case("%s-long-%d" % (_w, _n), long, secs=60, need=["value equals the definition"], bound="%d bytes, nine of them free" % _n, which=_w, n=_n))
for _w in ("lrc", "checksum", "drc", "crc"):
    for _n in (0, 1, 2, 3, 5, 8, 16, 24):
        CASES.append(Case("%s-%d" % (_w, _n), codes, secs=60, need=["value equals the definition"], bound="all byte strings of length %d" % _n,
                          which=_w, n=_n, kind="bytearray" if _n % 2 else "bytes"))
