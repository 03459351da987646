"""Symbolic back end of the harness interface."""
import datetime as _dt
import attr
import z3

from . import core, env, rt, values as V
from .api import BaseE, Out
from .core import Control
from .values import SymBytes, SymDatetime, SymFloat, SymInt, SymStr, and_all, is_sym, or_any


class SymE(BaseE):
    symbolic = True

    def __init__(self, eng):
        super().__init__()
        self.e = eng

    def _new(self, name, kind, make):
        n = self.e.uniq(name)
        v = make(n)
        self.e.inputs.append((n, kind, v))
        return v

    def int(self, name, lo, hi):
        return self._new(name, "int", lambda n: V.new_int(n, lo, hi))

    def byte(self, name):
        return self.int(name, 0, 255)

    def bytes(self, name, n):
        return self._new(name, "bytes", lambda nm: SymBytes._mk([V.new_int("%s[%d]" % (nm, i), 0, 255) for i in range(n)]))

    def text(self, name, n, lo=33, hi=126, exclude=()):
        def mk(nm):
            el = [V.new_int("%s[%d]" % (nm, i), 0, 255) for i in range(n)]
            for x in el:
                self.e.assume(V.zbool(and_all([x >= lo, x <= hi] + [x != c for c in exclude])))
            return SymStr._mk([V.tight(x, lo, hi) for x in el])
        return self._new(name, "text", mk)

    def bool(self, name):
        return self._new(name, "bool", lambda n: V.mkbool(z3.Bool(n)))

    def choose(self, name, options):
        if len(options) == 1:
            i = self._new(name, "int", lambda n: 0)
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def float(self, name, fmt="d"):
        k = 4 if fmt == "f" else 8
        return self._new(name, "float", lambda nm: SymFloat(fmt, [V.new_int("%s[%d]" % (nm, i), 0, 255) for i in range(k)]))

    def finite(self, f):
        if type(f) is SymFloat:
            return V.not_(or_any([f.is_nan(), f.is_inf()]))
        return f == f and abs(f) != float("inf")

    def datetime(self, name, y0=2000, y1=2099):
        def mk(n):
            y = V.new_int(n + ".year", y0, y1)
            mo = V.new_int(n + ".month", 1, 12)
            d = V.new_int(n + ".day", 1, 31)
            h = V.new_int(n + ".hour", 0, 23)
            mi = V.new_int(n + ".minute", 0, 59)
            s = V.new_int(n + ".second", 0, 59)
            self.e.assume(V.zbool(d <= V.days_in_month(y, mo)))
            return SymDatetime((y, mo, d, h, mi, s, 0))
        return self._new(name, "datetime", mk)

    # ------------------------------------------------------------ assertions
    def assume(self, c):
        if type(c) is V.SymBool:
            self.e.assume(c.z)
        elif not c:
            self.e.assume(False)

    def check(self, c, label):
        self.e.log.append("check:" + label)
        if type(c) is V.SymBool:
            self.e.check(c.z, label)
        elif type(c) is SymInt:
            self.e.check(V.truth(c), label)
        else:
            self.e.check(bool(c), label)

    def fail(self, label, detail=""):
        self.check(False, label)

    def run(self, f, *a, **k):
        try:
            o = Out(True, rt.call(f, *a, **k))
        except Exception as e:
            if self.e.dead is not None:
                raise self.e.dead
            o = Out(False, None, e)
        if self.e.dead is not None:
            raise self.e.dead
        self.e.log.append("ok" if o.ok else type(o.exc).__name__)
        if not o.ok:
            self.e.last_exc = o.exc
        return o

    def all(self, items):
        return and_all(items)

    def any(self, items):
        return or_any(items)

    def ite(self, c, a, b):
        if V.is_num(a) and V.is_num(b):
            return V.ite(V.mkbool(V.truth(c)), a, b)
        return a if bool(c) else b

    def table(self, t, i):
        return rt.getitem(t, i)

    def same(self, a, b):
        return sym_same(a, b)

    def aes(self, key, iv, data):
        return SymBytes._mk(env.cbc(list(V.elems(key)), list(V.elems(iv)), list(V.elems(data)), True)[0])

    def quiet_cipher(self, free=()):
        """assume that symbolic cipher text holds no reserved character but at the positions in free"""
        self.e.tables["quiet"] = [0, tuple(free)]

    def fixed_draws(self):
        """random draws take fixed values on this path"""
        self.e.tables["fixed_draws"] = 0

    def quiet_compare(self, free=()):
        """assume from here on that a computed byte (check byte, CRC byte) is no reserved character when it is compared with one;
        free: inputs whose own bytes are exempt"""
        self.e.tables["quiet_cmp"] = {}
        self.e.tables["quiet_free"] = tuple(free)

    def unaes(self, key, iv, data):
        return SymBytes._mk(env.cbc(list(V.elems(key)), list(V.elems(iv)), list(V.elems(data)), False)[0])


def sym_same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        if type(a) is SymFloat or type(b) is SymFloat:
            if type(a) is SymFloat and type(b) is SymFloat:
                return V.same_float(a, b)
            return a == b
        from .api import conc_same
        return conc_same(a, b)
    if V.is_bytes(a) or V.is_bytes(b):
        if not (V.is_bytes(a) and V.is_bytes(b)):
            return False
        return V.seq_eq(V.elems(a), V.elems(b))
    if isinstance(a, str) and isinstance(b, str):
        if not isinstance(a, SymStr) and not isinstance(b, SymStr) and V.MARK_A not in a and V.MARK_A not in b:
            return a == b
        a, b = V.expand(a), V.expand(b)
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and and_all([sym_same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and and_all([sym_same(a[k], b[k]) for k in a])
    if not is_sym(a) and attr.has(type(a)) and type(a) is type(b):
        return and_all([sym_same(getattr(a, f.name), getattr(b, f.name)) for f in attr.fields(type(a))])
    if a is None or b is None:
        return a is b
    r = a == b
    return r if type(r) is V.SymBool else bool(r)


# ------------------------------------------------------------------ models of the solver -> plain values
def _val(m, x):
    if type(x) is SymInt:
        v = m.eval(x.z, model_completion=True)
        return v.as_signed_long() if x.lo < 0 else v.as_long()
    if type(x) is V.SymBool:
        return z3.is_true(m.eval(x.z, model_completion=True))
    return x


def concrete_inputs(m, inputs):
    out = []
    for name, kind, v in inputs:
        if kind == "bytes":
            r = bytes(_val(m, x) for x in V.elems(v)).hex()
        elif kind == "text":
            r = "".join(chr(_val(m, c)) for c in V.str_chars(v))
        elif kind == "float":
            r = bytes(_val(m, x) for x in v.le).hex()
        elif kind == "datetime":
            r = [_val(m, x) for x in v.f[:6]]
        elif kind == "draw":
            r = [v[0], _val(m, v[1])]
        else:
            r = _val(m, v)
        out.append([name, kind, r])
    return out
