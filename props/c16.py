from props.layouts import LAYOUTS, check_object, items_of, make, texts, total
from symex.case import Case

PROPERTY = "C16"
ASSUMPTIONS = ["text bytes are free Latin-1 characters without terminator or white space, except in the cases of one text field, where the bytes at its start, its end and at the inner terminator are free"]


def decode(E, name, opt, rows=0):
    data = make(E, name, opt, rows)
    out = E.run(E.expose(name).from_bytes, data)
    E.check(out.ok, "an object is decoded")
    E.check(type(out.value).__name__ == name, "of its class")
    check_object(E, out.value, name, data, opt, rows)


def via_factory(E, name, opt):
    data = make(E, name, opt)
    t = LAYOUTS[name][0]
    T = E.p.enumerations.ParameterObjectType
    known = E.run(T, t)
    E.check(known.ok, "the type number is known")
    out = E.run(E.p.factory.ParameterFactory.from_bytes, known.value, bytearray(data))
    E.check(out.ok, "an object is decoded")
    E.check(type(out.value).__name__ == name, "of the class of its type number")
    E.check(int(out.value.object_type) == t, "type number of the object")
    check_object(E, out.value, name, data, opt)


def text(E, name, field, opt):
    data = make(E, name, opt, 1, field)
    out = E.run(E.expose(name).from_bytes, data)
    E.check(out.ok, "an object is decoded")
    check_object(E, out.value, name, data, opt, 1, only=field)


def words(E, name, opt):
    data = make(E, name, opt, 1, fixed=E.choose("text", [b"", b" ", b"\x00", b"\x00a\x00", b"0", b"1e5", b"a  b", b"\xe9\xff", b"\xa0a\x85"]))
    out = E.run(E.expose(name).from_bytes, data)
    E.check(out.ok, "an object is decoded")
    check_object(E, out.value, name, data, opt, 1)


def short(E, name, rows=0, fixed=False):
    data = make(E, name, False, rows, fixed=fixed)
    n = total(LAYOUTS[name][1], rows)
    k = E.choose("length", list(range(0, n)))
    out = E.run(E.expose(name).from_bytes, data[:k])
    E.check(not out.ok, "too short is refused")


CASES = []
for _name, (_t, _fixed, _tail) in LAYOUTS.items():
    _big = _name in ("SystemParameters", "Modem")
    for _opt in ((True, False) if _tail else (False,)):
        _x = "-full" if _opt else "-bare"
        _last = [a for a, _ in items_of(_name, _opt) if a][-1]
        for _r in ((0, 1, 2, 4, 7) if _name == "TimeWindow" else (0,)):
            CASES.append(Case(_name + _x + ("-%d" % _r if _name == "TimeWindow" else ""), decode, name=_name, opt=_opt, rows=_r, secs=90,
                              need=["attribute " + _last], bound="all contents; text fields without white space and terminators" + (", %d rows" % _r if _name == "TimeWindow" else "")))
        CASES.append(Case(_name + "-factory" + _x, via_factory, name=_name, opt=_opt, secs=90, need=["attribute " + _last], bound="all contents; text fields without white space and terminators"))
    for _f in texts(_name):
        CASES.append(Case(_name + "-text-" + _f, text, name=_name, field=_f, opt=True, secs=60, need=["attribute " + _f], bound="text field with free bytes at its start, its end and its terminator"))
    if texts(_name):
        CASES.append(Case(_name + "-words", words, name=_name, opt=bool(_tail), secs=60, need=["attribute " + _last], bound="text fields that are empty, blank or hold one of a few words"))
    CASES.append(Case(_name + "-short", short, name=_name, fixed=_big, secs=120, need=["too short is refused"], bound="every length below the fixed part" + (", constant texts" if _big else "")))
    if _big:
        CASES.append(Case(_name + "-short-texts", short, tier="thorough", name=_name, secs=120, need=["too short is refused"], bound="every length below the fixed part"))
CASES.append(Case("TimeWindow-short-rows", short, name="TimeWindow", rows=3, secs=90, need=["too short is refused"], bound="three rows, every length below the fixed part"))
for _r in (30, 255):
    CASES.append(Case("TimeWindow-full-%d" % _r, decode, tier="thorough", name="TimeWindow", opt=True, rows=_r, secs=120, need=["attribute text_log_1"], bound="all contents, %d rows" % _r))
