from props.common import le, quiet, ref_frame, ref_unescape
from props.conn import KEY, KID
from props.fake import FakeLink
from props.layouts import LAYOUTS, check_object, items_of, size
from symex.case import Case

PROPERTY = "C19"
ASSUMPTIONS = ["objects hold constant bytes (also reserved ones) but for one free byte; computed check, CRC and cipher text bytes and the bytes of the object counts asked for are no reserved characters",
               "the AES block cipher is an arbitrary permutation of 16-byte blocks for each key; the padding drawn is one fixed sequence"]
ZERO = (0, 0)


def const(name, opt, seed, x=None):
    seed = seed % 100
    """an object's bytes: constant, the first free place takes x"""
    out = b""
    for a, k in items_of(name, opt):
        n = size(k, 1)
        if not n:
            continue
        if k[0] == "t":
            out = out + (b"name" + bytes([48 + seed]) + b"\x00" * n)[:n]
        elif a == "rows_in_window":
            out = out + b"\x01"
        elif x is not None and k in ("i1", "i2", "i4"):
            out = out + x + bytes((29 * i + 13 * seed) % 256 for i in range(n - 1))
            x = None
        elif k in ("f", "g", "d"):
            out = out + bytes((31 * i + 17 * seed + 13) % 64 for i in range(n))
        else:
            out = out + bytes((29 * i + 13 * seed) % 256 for i in range(n))
    return out


def objects(E, names, free, same=False):
    out = []
    for i, n in enumerate(names):
        x = None
        if i == free:
            x = quiet(E, E.bytes("content", 1))
        opt = (same or i % 2 == 0) and bool(LAYOUTS[n][2])
        out.append((n, const(n, opt, 1 if same else i + 1, x), opt))
    return out


def entry(o):
    return le(len(o[1]) + 3, 2) + bytes([LAYOUTS[o[0]][0]]) + o[1]


def page(E, objs, first, last, key, flag=1):
    body = le(first, 2) + le(len(objs), 2) + bytes([flag if last else 0])
    for o in objs:
        body = body + entry(o)
    # the client's addresses are all zero
    return answer(E, 0x70, body, key)


def answer(E, service, body, key):
    from props.conn import fixed_pad
    from props.common import ref_encrypt, ref_escape
    if key is None:
        return ref_escape(ref_frame(0x86, service, ZERO, ZERO, body))
    return ref_escape(ref_frame(0x87, service, ZERO, ZERO, ref_encrypt(E, key, KID, body, fixed_pad)))


def client(E, link, key):
    return E.m.client.ElgasClient(transport=link, password="123456", password_id=801, encryption_key=key, encryption_key_id=KID if key is not None else None)


def asked(E, wire, key):
    """the object count a request asks for"""
    un = ref_unescape(wire)
    if key is None:
        app = un[12:-4]
        E.check(E.same(un, ref_frame(0x84, 0x70, ZERO, ZERO, app)), "a parameter request is sent")
    else:
        pay = un[12:-4]
        E.check(E.same(un, ref_frame(0x85, 0x70, ZERO, ZERO, pay)), "a parameter request is sent")
        E.check(E.same(pay[:2], b"\x0e\x00"), "a parameter request is sent")
        app = E.unaes(key, key, pay[3:])[:14]
    E.check(len(app) == 14, "a parameter request is sent")
    E.check(E.same(app[:6], b"123456"), "the request carries the password")
    return app[10] + (app[11] << 8)


def layout(E, n, extra, pages):
    """how many objects each page holds; the last one is marked"""
    out, left = [], n
    while True:
        if len(out) == pages - 1 or len(out) >= 1 and left == 0 and not extra:
            k = left
        else:
            k = E.choose("page%d" % len(out), list(range(0 if extra else 1, left + 1)) or [0])
        out.append(k)
        left -= k
        if left == 0 and (not extra or len(out) == pages or E.choose("end%d" % len(out), [True, False])):
            return out


def read(E, cl, start, default):
    return E.run(cl.read_parameters) if default else E.run(cl.read_parameters, start) if E.choose("positional", [True, False]) else E.run(lambda: cl.read_parameters(read_from=start))


def check_list(E, out, objs):
    E.check(out.ok, "the list is returned")
    E.check(isinstance(out.value, (list, tuple)), "the list is returned")
    E.check(len(out.value) == len(objs), "one object per object of the device")
    for o, (n, data, opt) in zip(out.value, objs):
        E.check(type(o).__name__ == n, "in order")
        check_object(E, o, n, data, opt, 1)


def paged(E, names, free=None, key=None, extra=False, start=None, flag=None, cut=False, pages=None, twice=False, numbered=False, sizes=None, same=False):
    counts = E.choose("sizes", sizes) if sizes else layout(E, len(names), extra, pages or len(names) + (1 if extra else 0))
    E.quiet_compare()
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    if start is None:
        first = E.int("start", 0, 65000)
    else:
        first = start
    mark = 1
    if flag:
        mark = E.int("end flag", 1, 255)
        quiet(E, bytes([mark]))
    objs = objects(E, names, free, same)
    # how the device numbers its pages is its own affair
    number = E.int("number", 0, 60000) if numbered else 0
    if numbered:
        quiet(E, le(number, 2))
    script, at = [], 0
    for i, k in enumerate(counts):
        w = page(E, objs[at:at + k], number if numbered else first + at, i == len(counts) - 1, key, mark)
        if cut and i == cut - 1:
            script += [("recv", w[:len(w) // 2]), ("recv", w[len(w) // 2:])]
        else:
            script.append(("recv", w))
        at += k
    link = FakeLink(script * (2 if twice else 1) + [("recv", page(E, objs[:1], first, True, key))])
    cl = client(E, link, key)
    for r in range(2 if twice else 1):
        link.sent, link.log = [], []
        out = read(E, cl, first, start == 0)
        check_list(E, out, objs)
        E.check(len(link.sent) == len(counts), "one request for each page and none after the last")
        at = 0
        for w, k in zip(link.sent, counts):
            E.check(asked(E, w, key) == first + at, "the next page starts at the first object not yet received")
            at += k
        E.check(link.log.count("send") == len(counts), "one request for each page and none after the last")


def after_failure(E, names, key=None):
    """a read that fails on its second page leaves nothing behind for the next one"""
    how = E.choose("how", ["error", "link"])
    E.quiet_compare()
    if key is not None:
        E.quiet_cipher()
        E.fixed_draws()
    objs = objects(E, names, None if key is not None else 0)
    bad = ("recv", answer(E, 0x70, b"\x10", key)) if how == "error" else ("fail", E.m.exceptions.CommunicationError("lost"))
    good = [("recv", page(E, objs[:1], 0, False, key)), ("recv", page(E, objs[1:], 1, True, key))]
    link = FakeLink([good[0], bad] + good)
    cl = client(E, link, key)
    out = E.run(cl.read_parameters)
    E.check(not out.ok, "a failed read raises")
    if how == "link":
        # the exchange that failed is still outstanding; a new connection starts anew
        cl = client(E, link, key)
    link.sent = []
    out = E.run(cl.read_parameters)
    check_list(E, out, objs)
    E.check(len(link.sent) == 2, "one request for each page and none after the last")
    for w, k in zip(link.sent, [0, 1]):
        E.check(asked(E, w, key) == k, "the next page starts at the first object not yet received")


CASES = []
NEED = ["in order", "the next page starts at the first object not yet received"]
SETS = {"a": ["Timer", "Binary", "TimeWindow"], "b": ["DeviceError", "Timer", "SumOfAlarms", "Compressibility"], "c": ["SystemParameters", "AnalogQuantity", "Counter"],
        "d": ["Modem", "Diagnostics", "Energy"], "e": ["FlowRate", "CompressibilityZ", "SetPoint", "Timer", "Binary"]}
for _n, _s in SETS.items():
    CASES.append(Case("paged-" + _n, paged, names=_s, free=len(_s) - 2, secs=120, need=NEED, bound="%d objects, every way to page them, any start, one free content byte" % len(_s)))
    CASES.append(Case("encrypted-" + _n, paged, names=_s, key=KEY, start=0, secs=120, need=NEED, bound="%d objects, every way to page them" % len(_s)))
for _n in ("a", "b"):
    _s = SETS[_n]
    CASES.append(Case("empty-pages-" + _n, paged, names=_s, extra=True, start=0, secs=120, need=NEED, bound="%d objects, empty pages too" % len(_s)))
    CASES.append(Case("empty-pages-start-" + _n, paged, names=_s[:2], extra=True, free=0, pages=4, secs=120, need=NEED, bound="2 objects in up to 4 pages, any start"))
    CASES.append(Case("flag-" + _n, paged, names=_s[:3], flag=True, start=0, secs=120, need=NEED, bound="any end flag but 0 (no reserved byte)"))
    CASES.append(Case("twice-" + _n, paged, names=_s[:3], free=0, twice=True, secs=120, need=NEED, bound="two reads of the same client"))
    CASES.append(Case("failure-" + _n, after_failure, names=_s[:3], secs=120, need=NEED, bound="a read that fails, then a full one"))
    CASES.append(Case("failure-encrypted-" + _n, after_failure, names=_s[:3], key=KEY, secs=120, need=NEED, bound="a read that fails, then a full one"))
    CASES.append(Case("numbered-" + _n, paged, names=_s[:3], numbered=True, start=3, secs=120, need=NEED, bound="any number in the responses"))
    for _c in (1, 2):
        CASES.append(Case("cut-%d-%s" % (_c, _n), paged, names=_s[:3], free=1, cut=_c, secs=120, need=NEED, bound="a page received in two reads"))
for _st in (1, 255, 256, 4660, 65000):
    CASES.append(Case("encrypted-start-%d" % _st, paged, names=SETS["b"], key=KEY, start=_st, secs=120, need=NEED, bound="4 objects, every way to page them"))
CASES.append(Case("encrypted-free", paged, names=["Timer", "Binary"], key=KEY, free=1, start=7, secs=120, need=NEED, bound="2 objects, one free content byte"))
CASES.append(Case("many", paged, names=SETS["a"] * 3, start=0, pages=3, secs=120, need=NEED, bound="9 objects in up to 3 pages"))
CASES.append(Case("many-8", paged, names=(SETS["b"] * 2), start=0, tier="thorough", secs=170, need=NEED, bound="8 objects, every way to page them"))
CASES.append(Case("many-7-encrypted", paged, names=(SETS["b"] * 2)[:7], key=KEY, start=0, tier="thorough", secs=170, need=NEED, bound="7 objects, every way to page them"))
CASES.append(Case("empty-pages-5", paged, names=SETS["e"], extra=True, pages=6, start=0, tier="thorough", secs=170, need=NEED, bound="5 objects in up to 6 pages"))
CASES.append(Case("page-of-260", paged, names=["Timer"] * 260 + ["Binary", "Timer"], start=0, pages=2, sizes=[[260, 2], [1, 261], [256, 6], [255, 7]], secs=120, need=NEED, bound="262 objects in two pages"))
CASES.append(Case("thirty", paged, names=(SETS["a"] + SETS["d"]) * 5, start=250, pages=3, sizes=[[10, 10, 10], [1, 9, 20], [29, 0, 1]], free=5, secs=120, need=NEED, bound="30 objects in three pages"))
CASES.append(Case("thirty-encrypted", paged, names=(SETS["a"] + SETS["d"]) * 5, start=250, pages=3, sizes=[[10, 10, 10]], key=KEY, secs=120, need=NEED, bound="30 objects in three pages"))
for _n, _c in (("Timer", 4), ("TariffCounter", 3), ("Compressibility", 3)):
    CASES.append(Case("same-%s" % _n, paged, names=[_n] * _c, same=True, start=0, secs=120, need=NEED, bound="%d objects of equal bytes, every way to page them" % _c))
    CASES.append(Case("alike-%s" % _n, paged, names=[_n] * _c, same=True, free=1, start=7, twice=True, tier="quick" if _n == "Timer" else "thorough", secs=120, need=NEED, bound="%d objects, equal but for one free byte, every way to page them, read twice" % _c))
CASES.append(Case("same-encrypted", paged, names=["Timer"] * 3, same=True, key=KEY, start=0, secs=120, need=NEED, bound="3 objects of equal bytes, every way to page them"))
