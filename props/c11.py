from props.common import quiet, ref_escape, ref_unescape
from props.conn import ADDR, DST, KEY, KID, KINDS, SERVICES, SRC, check_payload, conn, frame_of, payload, request, wire_of
from symex.case import Case

PROPERTY = "C11"
WHEN = ["together", "later", "one by one", "cut", "end apart", "bytes"]
ASSUMPTIONS = ["the response after the noise holds no reserved character in its free byte, check, CRC or cipher text bytes (the escape of any content is C01's subject); the noise holds every byte value",
               "the AES block cipher is an arbitrary permutation of 16-byte blocks for each key; the padding drawn is one fixed sequence"]


def feed(E, c, piece):
    E.check(E.run(c.receive_data, piece).ok, "bytes are received")


def nothing(E, c):
    r = E.run(c.next_event)
    E.check(r.ok, "noise never raises")
    E.check(r.value is E.m.state.NEED_DATA, "noise is never delivered")


def start(E, kind, key=None, free=("noise", "bad")):
    E.quiet_compare(free)
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    c = conn(E, key, KID if key is not None else None)
    r = E.run(c.send, request(E, kind))
    E.check(r.ok, "a request is sent")
    return c, r.value


def deliver(E, c, kind, noises, key=None, schedule=None):
    """the noises, then the response, on one of the schedules"""
    body = payload(E, kind, x=quiet(E, E.bytes("data", 1)), n=2)
    w = wire_of(E, kind, body, key)
    if schedule is None:
        schedule = E.choose("schedule", WHEN)
    every = b""
    for x in noises:
        every = every + x
    if schedule == "together":
        feed(E, c, every + w)
    elif schedule == "later":
        feed(E, c, every)
        nothing(E, c)
        feed(E, c, w)
    elif schedule == "one by one":
        for x in noises:
            feed(E, c, x)
            nothing(E, c)
        feed(E, c, w[:5])
        nothing(E, c)
        feed(E, c, w[5:])
    elif schedule == "cut":
        k = len(every) // 2
        feed(E, c, every[:k])
        nothing(E, c)
        feed(E, c, every[k:] + w[:11])
        nothing(E, c)
        feed(E, c, w[11:])
    elif schedule == "end apart":
        for x in noises:
            feed(E, c, x[:-1])
            feed(E, c, x[-1:])
        feed(E, c, w[:-1])
        feed(E, c, w[-1:])
    elif schedule == "bytes":
        for i in range(len(every)):
            feed(E, c, every[i:i + 1])
            nothing(E, c)
        feed(E, c, w)
    r = E.run(c.next_event)
    E.check(r.ok, "the response is delivered")
    check_payload(E, r.value, kind, body)
    nothing(E, c)
    E.check(E.run(c.send, request(E, kind)).ok, "the exchange is over")


def short(E, kind, n, key=None, schedule=None, tail=b""):
    """any n bytes and an end character"""
    c, _ = start(E, kind, key)
    deliver(E, c, kind, [E.bytes("noise", n) + tail + b"\x0d"], key, schedule)


def short2(E, kind, n, m):
    c, _ = start(E, kind)
    deliver(E, c, kind, [E.bytes("noise", n) + b"\x0d", E.bytes("noise", m) + b"\x0d"])


def corrupt(E, kind, key=None, esc=False, schedule=None):
    """any byte but the last of a response's wire form replaced by any other"""
    c, _ = start(E, kind, key)
    body = payload(E, kind, x=b"\x1b\x0e\x0d\x8d" if esc else b"\x41", n=2)
    w = wire_of(E, kind, body, key)
    p = E.choose("position", list(range(len(w) - 1)))
    x = E.byte("bad")
    E.assume(x != w[p])
    bad = w[:p] + bytes([x]) + w[p + 1:]
    E.assume(differs(E, ref_unescape(bad), ref_unescape(w)))
    deliver(E, c, kind, [bad], key, E.choose("when", ["together", "later"]))


def differs(E, a, b):
    return True if len(a) != len(b) else E.any([x != y for x, y in zip(a, b)])


def cut_out(E, kind, key=None):
    """a response with one byte missing, or cut short and ended, or with one byte too many"""
    c, _ = start(E, kind, key)
    body = payload(E, kind, x=b"\x1b\x0d", n=2)
    w = wire_of(E, kind, body, key)
    how = E.choose("how", ["missing", "short", "extra"])
    p = E.choose("position", list(range(0, len(w) - 1, 2)))
    if how == "missing":
        bad = w[:p] + w[p + 1:]
    elif how == "short":
        bad = w[:p] + b"\x0d"
    else:
        bad = w[:p] + quiet(E, E.bytes("bad", 1)) + w[p:]
    # an escape character that starts no escape sequence stands for itself, so this may still be the response
    E.assume(differs(E, ref_unescape(bad), ref_unescape(w)))
    deliver(E, c, kind, [bad], key, E.choose("when", ["together", "later"]))


def several(E, kind, first, key=None, n=2):
    """several corrupt frames, of several sorts, before the response"""
    sorts = [first] + [E.choose("sort%d" % i, SORTS) for i in range(1, n)]
    when = E.choose("when", WHEN[:-1])
    c, echo = start(E, kind, key)
    body = payload(E, kind, x=b"\x41", n=2)
    w = wire_of(E, kind, body, key)
    out = []
    for s in sorts:
        x = E.byte("bad")
        if s == "echo":
            out.append(echo)
        elif s == "check":
            E.assume(x != w[-3])
            out.append(w[:-3] + bytes([x]) + w[-2:])
        elif s == "length":
            E.assume(x != w[4])
            out.append(w[:4] + bytes([x]) + w[5:])
        elif s == "service":
            E.assume(x != w[3])
            out.append(w[:3] + bytes([x]) + w[4:])
        elif s == "type":
            E.assume(x != w[2])
            out.append(w[:2] + bytes([x]) + w[3:])
        elif s == "start":
            E.assume(x != w[0])
            out.append(bytes([x]) + w[1:])
        elif s == "short":
            out.append(w[:9] + bytes([x]) + b"\x0d")
        elif s == "long":
            out.append(bytes((7 * i + 14) % 128 + 128 for i in range(40)) + bytes([x]) + b"\x0d")
        else:
            out.append(b"\x0d")
    deliver(E, c, kind, out, key, when)


def other_type(E, kind, t):
    """a frame with good redundancy codes whose type is not that of a response"""
    c, _ = start(E, kind)
    from props.common import ref_frame
    p = quiet(E, E.bytes("data2", 2))
    bad = ref_escape(ref_frame(t, SERVICES[kind], SRC, DST, b"\x41" + p + b"\x42\x43\x44\x45\x46"))
    deliver(E, c, kind, [bad])


def wrong_length(E, kind, d, key=None):
    """a response with good redundancy codes whose length field is d off"""
    from props.common import ref_drc, ref_lrc, ref_sum
    c, _ = start(E, kind, key)
    fr = frame_of(E, kind, payload(E, kind, x=quiet(E, E.bytes("data2", 1)), n=2), key)
    n = len(fr) - 1 + d
    inner = fr[1:4] + bytes([n & 255, (n >> 8) & 255]) + fr[6:-4]
    deliver(E, c, kind, [ref_escape(b"\x02" + inner + bytes([ref_lrc(inner), ref_sum(inner), ref_drc(inner)]) + b"\x0d")], key)


def false_content(E, kind, what):
    """an encrypted response with good redundancy codes whose content does not match its CRC"""
    from props.common import le, ref_crc, ref_frame
    from props.conn import fixed_pad
    c, _ = start(E, kind, KEY)
    body = payload(E, kind, x=b"\x41", n=2)
    n = (-(len(body) + 2)) % 16
    head = le(len(body), 2) + bytes([KID])
    clear = body + fixed_pad(n)
    crc = ref_crc(head + clear)
    clear = clear + bytes([crc >> 8, crc & 255])
    k = E.int("damage", 1, 255)
    if what == "length":
        head = bytes([head[0] ^ k]) + head[1:]
        quiet(E, head)
        cipher = E.aes(KEY, KEY, clear)
    elif what == "none":
        cipher = b""
    else:
        p = {"first": 0, "last": len(body) - 1, "pad": len(clear) - 3, "crc": len(clear) - 2, "crc2": len(clear) - 1}[what]
        cipher = E.aes(KEY, KEY, clear[:p] + bytes([clear[p] ^ k]) + clear[p + 1:])
    fr = ref_frame(0x87, SERVICES[kind], SRC, DST, head + cipher)
    quiet(E, fr[1:-1])
    deliver(E, c, kind, [ref_escape(fr)], KEY, E.choose("when", ["together", "later", "cut"]))


def no_request(E, n):
    """noise while nothing is outstanding, then an exchange"""
    E.quiet_compare(("noise",))
    c = conn(E)
    feed(E, c, E.bytes("noise", n) + b"\x0d")
    if E.choose("poll", [True, False]):
        nothing(E, c)
    E.check(E.run(c.send, request(E, "time")).ok, "a request is sent")
    deliver(E, c, "time", [b"\x41\x0d"], None, "later")


CASES = []
NEED = ["the response is delivered", "the exchange is over"]
SORTS = ["echo", "check", "length", "service", "type", "start", "short", "long", "end"]
for _key in (None, KEY):
    _s = "" if _key is None else "-encrypted"
    for _k in KINDS:
        _t = "thorough" if _k == "values" and _key is not None else "quick"
        CASES.append(Case("corrupt%s-%s" % (_s, _k), corrupt, kind=_k, key=_key, secs=150, tier=_t, need=NEED, bound="every byte of the response replaced by every other value, in the same read as the response or before"))
        CASES.append(Case("corrupt-escaped%s-%s" % (_s, _k), corrupt, kind=_k, key=_key, esc=True, secs=150,
                          tier="quick" if _key is None or _k == "time" else "thorough", need=NEED, bound="every byte of an escaped response replaced by every other value"))
        CASES.append(Case("cut-out%s-%s" % (_s, _k), cut_out, kind=_k, key=_key, secs=120, tier=_t, need=NEED, bound="every second position: byte missing, cut short, any byte inserted"))
        for _f in SORTS:
            CASES.append(Case("two-%s%s-%s" % (_f, _s, _k), several, kind=_k, key=_key, first=_f, n=2, secs=100, tier="quick" if _k == "time" and _key is None else "thorough", need=NEED,
                              bound="two corrupt frames of 9 sorts with a free byte each, every schedule"))
            CASES.append(Case("one-%s%s-%s" % (_f, _s, _k), several, kind=_k, key=_key, first=_f, n=1, secs=100, tier="quick" if _k == "by_id" or _key is None else "thorough", need=NEED,
                              bound="a corrupt frame with a free byte, every schedule"))
    for _f in SORTS:
        CASES.append(Case("three-%s%s" % (_f, _s), several, kind="time", key=_key, first=_f, n=3, secs=170, tier="thorough", need=NEED, bound="three corrupt frames of 9 sorts with a free byte each, every schedule"))
for _k in KINDS:
    for _n in (0, 1, 2):
        CASES.append(Case("short-%d-%s" % (_n, _k), short, kind=_k, n=_n, secs=90, tier="quick" if _n < 2 or _k in ("time", "by_id") else "thorough", need=NEED, bound="every noise of %d bytes and an end character, every schedule" % _n))
    CASES.append(Case("short-3-%s" % _k, short, kind=_k, n=3, schedule="together", secs=150, tier="quick" if _k == "parameters" else "thorough", need=NEED, bound="every noise of 3 bytes and an end character"))
    for _t in (0x84, 0x85, 0x80, 0x88, 0x00):
        CASES.append(Case("type-%02x-%s" % (_t, _k), other_type, kind=_k, t=_t, secs=60, tier="quick" if _k in ("time", "by_time") else "thorough", need=NEED, bound="frames of another type, every schedule"))
    for _d in (-255, -2, -1, 1, 2, 255, 256):
        CASES.append(Case("length%+d-%s" % (_d, _k), wrong_length, kind=_k, d=_d, secs=60, tier="quick" if _k == "values" else "thorough", need=NEED, bound="a wrong length field, every schedule"))
for _w in ("first", "last", "pad", "crc", "crc2", "length", "none"):
    for _k in ("time", "parameters", "by_id"):
        CASES.append(Case("content-%s-%s" % (_w, _k), false_content, kind=_k, what=_w, secs=90, tier="quick" if _k == "time" or _w in ("crc", "length") else "thorough", need=NEED, bound="encrypted frames whose content does not match its CRC: any other value of one byte, any other length (low byte)"))
CASES.append(Case("short-1-2", short2, kind="time", n=1, m=2, secs=120, tier="thorough", need=NEED, bound="every two noises of 1 and 2 bytes"))
CASES.append(Case("short-1-1", short2, kind="by_time", n=1, m=1, secs=120, need=NEED, bound="every two noises of 1 byte"))
CASES.append(Case("short-4", short, kind="time", n=4, schedule="together", tier="thorough", secs=170, need=NEED, bound="every noise of 4 bytes"))
CASES.append(Case("short-2-encrypted", short, kind="time", n=2, key=KEY, secs=150, need=NEED, bound="every noise of 2 bytes"))
CASES.append(Case("frame-like", short, kind="time", n=2, tail=b"\x02\xfe\x86\x6c\x10\x00\x05\x04\x06\x02\x01\x03\x41\x42\x43\x44", schedule="together", secs=150, need=NEED, bound="any two bytes before the start of a frame"))
for _n in (0, 1, 2):
    CASES.append(Case("idle-%d" % _n, no_request, n=_n, secs=90, need=NEED, bound="every noise of %d bytes before a request" % _n))
def long_noise(E, kind, n, key=None):
    """much noise before and between, then the response"""
    c, _ = start(E, kind, key)
    x = quiet(E, E.bytes("noise", 2))
    bad = x[:1] + bytes((11 * i + 5) % 100 + 32 for i in range(n)) + x[1:] + b"\x0d"
    E.assume(E.any([bad[0] != 2, bad[1] != 0xFE]))
    deliver(E, c, kind, [bad] * E.choose("times", [1, 3]), key, E.choose("when", ["together", "later", "one by one", "cut"]))


for _n in (120, 250, 520, 1100, 4200):
    for _k in ("time", "by_id"):
        CASES.append(Case("long-%d-%s" % (_n, _k), long_noise, kind=_k, n=_n, secs=90, need=NEED, bound="once or three times %d bytes of noise, two of them free, every schedule" % _n))
CASES.append(Case("long-encrypted", long_noise, kind="time", n=520, key=KEY, secs=90, need=NEED, bound="once or three times 520 bytes of noise, two of them free, every schedule"))
