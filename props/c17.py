from props.common import le
from props.layouts import LAYOUTS, check_object, make, texts, total
from symex.case import Case

PROPERTY = "C17"
ASSUMPTIONS = ["text bytes of the entries are free Latin-1 characters without terminator or white space (the text rule is C23's, the layout C16's subject)"]
NAMES = list(LAYOUTS)
TYPES = sorted(t for t, _, _ in LAYOUTS.values())


def entry(name, data):
    return le(len(data) + 3, 2) + bytes([LAYOUTS[name][0]]) + data


def parse(E, data, how):
    S = E.m.parser
    if how == "arg":
        return E.run(S.ScadaParameterParser().parse, data)
    return E.run(lambda: S.ScadaParameterParser(data).parse())


def check_list(E, out, spec):
    """spec: list of (class name, bytes, full, rows)"""
    E.check(out.ok, "a complete list is parsed")
    objs = out.value
    E.check(len(objs) == len(spec), "one object per entry")
    for obj, (name, data, opt, rows) in zip(objs, spec):
        E.check(type(obj).__name__ == name, "class of the entry's type number")
        alone = E.run(E.expose(name).from_bytes, data)
        E.check(alone.ok, "the entry decodes alone")
        E.check(E.same(obj, alone.value), "equal to the entry decoded alone")
        check_object(E, obj, name, data, opt, rows)


def build(E, names, full, rows, fixed=False):
    spec = []
    for i, n in enumerate(names):
        opt = full and bool(LAYOUTS[n][2])
        spec.append((n, make(E, n, opt, rows, tag="%d:" % i, fixed=fixed), opt, rows))
    return spec


def wire(spec):
    out = b""
    for n, d, _, _ in spec:
        out = out + entry(n, d)
    return out


def lists(E, names, full, rows=1, how="arg", fixed=False):
    spec = build(E, names, full, rows, fixed)
    data = wire(spec)
    check_list(E, parse(E, bytearray(data) if how == "bytearray" else data, "arg" if how == "bytearray" else how), spec)


def cut(E, names, full):
    """the data ends inside an entry"""
    spec = build(E, names, full, 1, fixed=True)
    data = wire(spec)
    ends = []
    n = 0
    for s in spec:
        n += len(s[1]) + 3
        ends.append(n)
    k = E.choose("cut at", [k for k in range(0, len(data)) if k not in ends])
    E.check(not parse(E, data[:k], "arg").ok, "data that ends inside an entry is refused")


def unknown(E, before, after):
    """an entry whose type number the library does not know"""
    spec = build(E, before, False, 1, fixed=True)
    t = E.byte("type number")
    E.assume(E.all([t != k for k in TYPES]))
    n = E.choose("length", [0, 1, 2, 40, 60])
    data = wire(spec) + le(n + 3, 2) + bytes([t]) + E.bytes("data", n) + wire(build(E, after, False, 1, fixed=True))
    E.check(not parse(E, data, "arg").ok, "an unknown type number is refused")


def short_length(E, names):
    """the length of the last entry is less than its header or says more than there is"""
    spec = build(E, names, False, 1, fixed=True)
    n, d = spec[-1][0], spec[-1][1]
    size = len(d) + 3
    length = E.int("length", 0, 65535)
    E.assume(E.any([length < size, length > size]))
    data = wire(spec[:-1]) + le(length, 2) + bytes([LAYOUTS[n][0]]) + d
    if E.any([length > size, length < 3]):
        E.check(not parse(E, data, "arg").ok, "an entry longer than the data or shorter than its header is refused")


def tiny(E, n):
    E.check(not parse(E, E.bytes("data", n), "arg").ok, "less than an entry is refused")


def empty(E):
    P = E.m.parser.ScadaParameterParser
    E.check(not E.run(P().parse, b"").ok, "empty data is refused")
    E.check(not E.run(P(b"").parse).ok, "empty data is refused")
    E.check(not E.run(P().parse).ok, "no data is refused")


def again(E):
    """a parser keeps nothing from one list to the next"""
    P = E.m.parser.ScadaParameterParser()
    a = build(E, ["Timer", "Binary"], True, 1)
    first = E.run(P.parse, wire(a))
    bad = E.run(P.parse, wire(a)[:-1])
    E.check(not bad.ok, "data that ends inside an entry is refused")
    second = E.run(P.parse, wire(a[1:]))
    check_list(E, first, a)
    check_list(E, second, a[1:])


CASES = []
ALLB = "all contents; text fields without white space and terminators"
for _i, _n in enumerate(NAMES):
    _big = _n in ("SystemParameters", "Modem")
    _o1, _o2 = NAMES[(_i + 7) % len(NAMES)], NAMES[(_i + 19) % len(NAMES)]
    if "Modem" in (_o1,):
        _o1 = "Timer"
    if _o2 in ("Modem", "SystemParameters"):
        _o2 = "Compressibility"
    CASES.append(Case("one-" + _n, lists, names=[_n], full=True, how="arg", secs=60, need=["equal to the entry decoded alone"], bound=ALLB))
    CASES.append(Case("three-" + _n, lists, names=[_o1, _n, _o2], full=_i % 2 == 0, how="attr" if _i % 3 == 0 else "bytearray", secs=90, need=["equal to the entry decoded alone"], bound=ALLB))
    CASES.append(Case("cut-" + _n, cut, names=[_n] if _i % 2 else ["Timer", _n], full=not _big, secs=90, need=["data that ends inside an entry is refused"], bound="every cut; constant texts"))
    CASES.append(Case("length-" + _n, short_length, names=[_n] if _i % 2 else ["Compressibility", _n], secs=90, need=["an entry longer than the data or shorter than its header is refused"], bound="every other length of the last entry above the data or below 3; constant texts"))
CASES.append(Case("all-types", lists, names=NAMES, full=True, rows=2, fixed=True, secs=90, need=["equal to the entry decoded alone"], bound="one entry of every type; constant texts"))
CASES.append(Case("all-types-bare", lists, names=NAMES[::-1], full=False, rows=0, fixed=True, secs=90, need=["equal to the entry decoded alone"], bound="one entry of every type in reverse order; constant texts"))
CASES.append(Case("same-five", lists, names=["Binary"] * 5, full=True, secs=90, need=["equal to the entry decoded alone"], bound=ALLB))
CASES.append(Case("unknown-first", unknown, before=[], after=["Timer"], secs=60, need=["an unknown type number is refused"], bound="every unknown type number, five lengths"))
CASES.append(Case("unknown-last", unknown, before=["Timer", "Counter"], after=[], secs=60, need=["an unknown type number is refused"], bound="every unknown type number, five lengths"))
CASES.append(Case("unknown-only", unknown, before=[], after=[], secs=60, need=["an unknown type number is refused"], bound="every unknown type number, five lengths"))
CASES.append(Case("empty", empty, need=["no data is refused"], bound="no data"))
CASES.append(Case("again", again, need=["equal to the entry decoded alone"], bound=ALLB))
for _n in range(1, 7):
    CASES.append(Case("tiny-%d" % _n, tiny, n=_n, secs=60, need=["less than an entry is refused"], bound="all %d-byte data" % _n))
CASES.append(Case("all-types-texts", lists, tier="thorough", names=NAMES, full=True, rows=2, secs=160, need=["equal to the entry decoded alone"], bound="one entry of every type"))
for _n in range(7, 13):
    CASES.append(Case("tiny-%d" % _n, tiny, tier="thorough", n=_n, secs=100, need=["less than an entry is refused"], bound="all %d-byte data" % _n))
for _n in (30, 300):
    CASES.append(Case("many-%d" % _n, lists, names=["Timer", "Binary", "SumOfAlarms"] * (_n // 3), full=True, fixed=True, secs=120, need=["equal to the entry decoded alone"], bound="%d entries; constant texts" % _n))
