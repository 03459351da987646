from props.common import ref_escape
from symex.case import Case

PROPERTY = "C01"
ASSUMPTIONS = ["the frame content is bytes ending in 0x0D, as produced by the frame encoders"]


def roundtrip(E, data):
    out = E.run(E.m.utils.escape_characters, data)
    E.check(out.ok, "escaping succeeds")
    w = out.value
    E.check(w[-1] == 0x0D, "last byte is the end character")
    E.check(E.all([E.all([b != 0x0D, b != 0x8D]) for b in w[:-1]]), "no end character inside, no 0x8D")
    E.check(E.same(w, ref_escape(data)), "only literal bytes and documented escapes")
    back = E.run(E.m.utils.return_characters, w)
    E.check(back.ok, "un-escaping succeeds")
    E.check(E.same(back.value, data), "un-escaping restores the bytes")


def whole(E, n):
    roundtrip(E, E.bytes("body", n) + b"\x0d")


def sparse(E, n, k):
    """k free bytes at free positions in a long frame whose other bytes are arbitrary non-reserved"""
    body = E.bytes("body", n)
    free = []
    for i in range(k):
        lo = free[-1] + 1 if free else 0
        free.append(E.choose("pos%d" % i, list(range(lo, n - (k - 1 - i)))))
    for i, b in enumerate(body):
        if i not in free:
            E.assume(E.all([b != 0x0D, b != 0x1B, b != 0x8D]))
    roundtrip(E, body + b"\x0d")


def concrete_base(E, n, k):
    """long frame, free bytes next to concrete reserved ones"""
    base = [0x02, 0xFE, 0x86, 0x1B, 0x0E, 0x0D, 0x8D, 0x0F, 0x1B, 0x1B, 0x0D, 0x0D, 0x64]
    p = E.choose("pos", list(range(n - k)))
    el = [base[i % len(base)] for i in range(n)]
    fr = E.bytes("free", k)
    for i in range(k):
        el[p + i] = fr[i]
    roundtrip(E, bytes(el) + b"\x0d")


def plain(E, n):
    d = E.bytes("d", n)
    for b in d:
        E.assume(b != 0x1B)
    out = E.run(E.m.utils.return_characters, d)
    E.check(out.ok, "un-escaping succeeds")
    E.check(E.same(out.value, d), "bytes without escapes are unchanged")


def long(E, n, where):
    """frames as long as the protocol's longest, dense in reserved bytes"""
    base = [0x02, 0xFE, 0x86, 0x1B, 0x0E, 0x0D, 0x8D, 0x0F, 0x1B, 0x1B, 0x0D, 0x0D, 0x64, 0x41, 0x42]
    p = {"start": 0, "middle": n // 2, "end": n - 3}[where]
    el = [base[i % len(base)] for i in range(n)]
    fr = E.bytes("free", 3)
    for i in range(3):
        el[p + i] = fr[i]
    roundtrip(E, bytes(el) + b"\x0d")


NEED = ["un-escaping restores the bytes"]
CASES = [Case("whole-%d" % n, whole, need=NEED, bound="all frame bodies of %d bytes" % n, n=n, secs=100 if n > 4 else 40, tier="quick" if n < 6 else "thorough") for n in range(7)]
CASES += [Case("plain-%d" % n, plain, need=["bytes without escapes are unchanged"], bound="all %d-byte strings without 0x1B" % n, n=n) for n in (0, 1, 2, 7, 30)]
CASES += [Case("sparse-12-2", sparse, need=NEED, bound="12 bytes, two arbitrary bytes at any two positions, others non-reserved", n=12, k=2, secs=120),
          Case("sparse-40-1", sparse, need=NEED, bound="40 bytes, one arbitrary byte at any position, others non-reserved", n=40, k=1, secs=120),
          Case("around-30-2", concrete_base, need=NEED, bound="30-byte frames dense in reserved bytes with two adjacent arbitrary bytes anywhere", n=30, k=2, secs=120),
          Case("sparse-20-3", sparse, tier="thorough", need=NEED, bound="20 bytes, three arbitrary bytes anywhere", n=20, k=3, secs=200)]
CASES += [Case("long-%d-%s" % (n, w), long, need=NEED, n=n, where=w, secs=100, tier="quick" if n < 2000 else "thorough", bound="%d-byte frames dense in reserved bytes, three adjacent arbitrary bytes at the %s" % (n, w))
          for n in (130, 260, 1060, 4200) for w in ("start", "middle", "end")]
