import attr

from props.layouts import LAYOUTS, items_of, make, texts
from symex.case import Case

PROPERTY = "C18"
ASSUMPTIONS = ["floats are finite", "text bytes are free Latin-1 characters without terminator or white space, except in the cases of one text field"]


def plain(v):
    """a plain JSON value"""
    if v is None or isinstance(v, (bool, int, float, str)):
        return True
    if isinstance(v, (list, tuple)):
        for x in v:
            if not plain(x):
                return False
        return True
    if isinstance(v, dict):
        for k in v:
            if not isinstance(k, str) or not plain(v[k]):
                return False
        return True
    return False


def schema(E, name):
    T = E.p.enumerations.ParameterObjectType
    out = E.run(E.p.factory.ParameterSchemaFactory.by_parameter_id, T(LAYOUTS[name][0]))
    E.check(out.ok, "a schema is registered for the type number")
    return out.value


def obj_of(E, name, opt, rows, free=None, fixed=False, flags=None):
    data = make(E, name, opt, rows, free, finite=True, fixed=fixed, flags=flags)
    out = E.run(E.expose(name).from_bytes, data)
    E.check(out.ok, "an object is decoded")
    return out.value


def fields_of(obj):
    return [a.name for a in attr.fields(type(obj))]


def roundtrip(E, name, opt, rows=1, free=None, words=None):
    fixed = E.choose("text", words) if words else False
    obj = obj_of(E, name, opt, rows, free, fixed=fixed, flags=0x49 if free is not None or words else None)
    S = schema(E, name)
    d = E.run(lambda: S().dump(obj))
    E.check(d.ok, "an object is dumped")
    d = d.value
    E.check(plain(d), "plain JSON values")
    for n in fields_of(obj):
        E.check(n in d, "every attribute is dumped")
    back = E.run(lambda: S().load(d))
    E.check(back.ok, "the dump is loaded")
    E.check(type(back.value).__name__ == name, "an object of the same class")
    for n in fields_of(obj):
        E.check(E.same(getattr(back.value, n), getattr(obj, n)), "attribute " + n)
    E.check(int(back.value.object_type) == LAYOUTS[name][0], "type number")
    E.check(back.value == obj, "an equal object")


def lacking(E, name, opt):
    """every attribute of the dump, those of the nested mapping included, is required"""
    obj = obj_of(E, name, opt, 1, fixed=True, flags=0x2A)
    S = schema(E, name)
    d = E.run(lambda: S().dump(obj))
    E.check(d.ok, "an object is dumped")
    names = [a for a, _ in items_of(name, True) if a]
    n = E.choose("lacking", names)
    d2 = dict(d.value)
    if "." in n:
        a, b = n.split(".")
        inner = dict(d2[a])
        if b in inner:
            del inner[b]
        d2[a] = inner
    else:
        if n in d2:
            del d2[n]
    back = E.run(lambda: S().load(d2))
    E.check(not back.ok, "a dump that lacks an attribute is refused")


def stored(E, names, kind):
    """a stored configuration: type number and dump of each object, together"""
    P = E.m.integration
    objs, dumps = [], []
    for n in names:
        obj = obj_of(E, n, True, 1, fixed=True, flags=0x49)
        S = schema(E, n)
        objs.append(obj)
        dumps.append(S().dump(obj))
    if kind == "plain":
        wrapped = [P.ConfigurationObject(parameter_type=int(o.object_type), data=d) for o, d in zip(objs, dumps)]
        out = [E.run(P.ConfigurationObjectSchema().dump, w) for w in wrapped]
        for o in out:
            E.check(o.ok, "an object is stored")
        out = [o.value for o in out]
    else:
        series = [None, "flow"]
        wrapped = [P.UtilitarianConfigurationObject(parameter_type=int(o.object_type), data=d, series_name=series[i % 2]) for i, (o, d) in enumerate(zip(objs, dumps))]
        res = E.run(P.UtilitarianConfigurationSchema().dump, P.UtilitarianConfiguration(objects=wrapped))
        E.check(res.ok, "an object is stored")
        E.check(sorted(res.value) == ["objects"], "a stored configuration holds its objects")
        out = res.value["objects"]
    E.check(plain(out), "plain JSON values")
    E.check(len(out) == len(names), "every object is stored")
    if kind == "plain":
        back = [E.run(P.ConfigurationObjectSchema().load, o) for o in out]
        for o in back:
            E.check(o.ok, "a stored object is loaded")
        back = [o.value for o in back]
    else:
        res = E.run(P.UtilitarianConfigurationSchema().load, {"objects": out})
        E.check(res.ok, "a stored object is loaded")
        back = res.value["objects"]
        for i, o in enumerate(back):
            E.check(o["series_name"] == series[i % 2], "the name of the series is kept")
    E.check(len(back) == len(names), "every object is loaded")
    for n, o, b in zip(names, objs, back):
        E.check(b["parameter_type"] == LAYOUTS[n][0], "type number")
        S = E.p.factory.ParameterSchemaFactory.by_parameter_id(E.p.enumerations.ParameterObjectType(b["parameter_type"]))
        again = E.run(S().load, b["data"])
        E.check(again.ok, "the dump is loaded")
        E.check(type(again.value).__name__ == n, "an object of the same class")
        for f in fields_of(o):
            E.check(E.same(getattr(again.value, f), getattr(o, f)), "attribute " + f)
        E.check(again.value == o, "a stored object loads back equal")
    key = E.choose("lacking", ["parameter_type", "data"])
    for o in out:
        d = {k: o[k] for k in o if k != key}
        S = P.ConfigurationObjectSchema if kind == "plain" else P.UtilitarianConfigurationObjectSchema
        E.check(not E.run(S().load, d).ok, "a stored object that lacks its type number or data is refused")


WORDS = [b"", b" ", b"\x00a", b"0", b"007", b"1e5", b"nan", b"null", b"None", b"true", b"a  b", b"\xe9\xff"]
CASES = []
for _name, (_t, _fixed, _tail) in LAYOUTS.items():
    for _opt in ((True, False) if _tail else (False,)):
        _x = "-full" if _opt else "-bare"
        CASES.append(Case(_name + _x, roundtrip, name=_name, opt=_opt, secs=90, need=["an equal object"], bound="all contents with finite floats; text fields without white space and terminators"))
        CASES.append(Case(_name + "-lacking" + _x, lacking, name=_name, opt=_opt, secs=90, need=["a dump that lacks an attribute is refused"], bound="every attribute; constant texts and flags"))
    for _f in texts(_name):
        CASES.append(Case(_name + "-text-" + _f, roundtrip, name=_name, opt=True, free=_f, secs=60, need=["an equal object"], bound="text field with free bytes at its start, its end and its terminator; constant flags"))
    if texts(_name):
        CASES.append(Case(_name + "-words", roundtrip, name=_name, opt=True, words=WORDS, secs=60, need=["an equal object"], bound="text fields that are empty, blank or hold one of a few words; constant flags"))
for _r in (0, 3, 6):
    CASES.append(Case("TimeWindow-rows-%d" % _r, roundtrip, name="TimeWindow", opt=True, rows=_r, secs=60, need=["an equal object"], bound="all contents, %d rows" % _r))
_ALL = list(LAYOUTS)
for _i in range(0, len(_ALL), 6):
    for _k in ("plain", "named"):
        CASES.append(Case("stored-%s-%d" % (_k, _i), stored, names=_ALL[_i:_i + 6], kind=_k, secs=90, need=["a stored object loads back equal"], bound="six objects of different types together; constant texts and flags"))
