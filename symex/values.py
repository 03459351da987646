"""Symbolic values. They impersonate int / bool / bytes / bytearray / str / float / datetime via __class__."""
import datetime as _dt
import functools
import struct as _struct
import z3
from . import core
from .core import Unsupported

BV = functools.lru_cache(65536)(z3.BitVecVal)


def unsupported(msg):
    core.CUR.die(Unsupported(msg))


# ------------------------------------------------------------------ bool
class SymBool:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return core.CUR.branch(self.z)

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.And(self.z, zbool(o)))
        return self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.Or(self.z, zbool(o)))
        return self.as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.Xor(self.z, zbool(o)))
        return self.as_int() ^ o

    __rxor__ = __xor__

    def as_int(self):
        return SymInt(z3.If(self.z, BV(1, 1), BV(0, 1)), 0, 1)

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(self.z == zbool(o))
        if is_num(o):
            return self.as_int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __invert__(self):
        return ~self.as_int()

    def __repr__(self):
        return marker(self)

    __str__ = __repr__

    def __format__(self, s):
        return marker(self)


def _fwd(name):
    def f(self, *a):
        return getattr(self.as_int(), name)(*a)
    f.__name__ = name
    return f


for _n in ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lshift__ __rlshift__ __rshift__ __rrshift__ __lt__ __le__ "
           "__gt__ __ge__ __neg__ __floordiv__ __rfloordiv__ __mod__ __rmod__ to_bytes bit_length __truediv__").split():
    setattr(SymBool, _n, _fwd(_n))


def zbool(x):
    if type(x) is SymBool:
        return x.z
    if type(x) is bool:
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    return truth(x)


_T, _F = [], []


def mkbool(z):
    if isinstance(z, bool):
        return z
    if not _T:
        _T.append(z3.BoolVal(True))
        _F.append(z3.BoolVal(False))
    if z.eq(_T[0]):
        return True
    if z.eq(_F[0]):
        return False
    return SymBool(z)


def not_(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.z))
    return not x


def and_all(items):
    zs = []
    for i in items:
        if type(i) is SymBool:
            zs.append(i.z)
        elif not i:
            return False
    if not zs:
        return True
    return mkbool(z3.And(*zs) if len(zs) > 1 else zs[0])


def or_any(items):
    zs = []
    for i in items:
        if type(i) is SymBool:
            zs.append(i.z)
        elif i:
            return True
    if not zs:
        return False
    return mkbool(z3.Or(*zs) if len(zs) > 1 else zs[0])


def truth(x):
    """z3 Bool of the truth value of x without forking where possible."""
    t = type(x)
    if t is SymBool:
        return x.z
    if t is SymInt:
        return zbool(x != 0)
    if t is SymFloat:
        return zbool(not_(x.is_zero()))
    return z3.BoolVal(bool(x))


# ------------------------------------------------------------------ int
def need(lo, hi):
    if lo >= 0:
        return max(1, hi.bit_length())
    return max((-lo - 1).bit_length(), hi.bit_length() if hi > 0 else 0) + 1


def to_w(x, w):
    """x (int or SymInt) as a BitVec of width w, modulo 2**w."""
    if type(x) is not SymInt:
        return BV(int(x), w)
    z = x.z
    s = z.size()
    if s == w:
        return z
    if s > w:
        return z3.Extract(w - 1, 0, z)
    return z3.SignExt(w - s, z) if x.lo < 0 else z3.ZeroExt(w - s, z)


# these never fail on well-formed terms: skip asking for the error code
for _f in ("get_sort", "get_ast_kind", "get_bv_sort_size", "inc_ref", "dec_ref", "get_app_arg", "get_ast_id", "get_app_num_args", "is_eq_sort",
           "get_sort_kind", "is_eq_ast", "get_app_decl", "get_decl_kind", "is_finite_set_sort", "mk_numeral", "mk_bv_sort"):
    _g = getattr(z3.z3core, "Z3_" + _f, None)
    if _g is not None and _g.__defaults__:
        _g.__defaults__[0].Check = lambda ctx: None


def _size(self):
    ctx = self.ctx.ref()
    return z3.Z3_get_bv_sort_size(ctx, z3.Z3_get_sort(ctx, self.ast))


z3.BitVecRef.size = _size


def mkint(z, lo, hi, prov=None):
    if lo == hi:
        return lo
    n = need(lo, hi)
    if z.size() > n:
        z = z3.Extract(n - 1, 0, z)
    if z3.Z3_get_ast_kind(z.ctx.ref(), z.ast) == z3.Z3_NUMERAL_AST:
        v = z.as_signed_long() if lo < 0 else z.as_long()
        return v
    return SymInt(z, lo, hi, prov)


def num(x):
    """normalise to int or SymInt; None if not an integer."""
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return x.as_int()
    if isinstance(x, int):
        return int(x)
    return None


def is_num(x):
    t = type(x)
    return t is SymInt or t is SymBool or isinstance(x, int)


def bounds(x):
    return (x.lo, x.hi) if type(x) is SymInt else (x, x)


class SymInt:
    __slots__ = ("z", "lo", "hi", "prov")

    def __init__(self, z, lo, hi, prov=None):
        self.z, self.lo, self.hi, self.prov = z, lo, hi, prov

    @property
    def __class__(self):
        return int

    # arithmetic -----------------------------------------------------
    def _bin(self, o, f, lohi):
        o = num(o)
        if o is None:
            return NotImplemented
        lo, hi = lohi(bounds(self), bounds(o))
        w = need(lo, hi)
        return mkint(f(to_w(self, w), to_w(o, w)), lo, hi)

    def __add__(self, o):
        if type(o) is int and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b, lambda x, y: (x[0] + y[0], x[1] + y[1]))

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is int and o == 0:
            return self
        return self._bin(o, lambda a, b: a - b, lambda x, y: (x[0] - y[1], x[1] - y[0]))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda x, y: (y[0] - x[1], y[1] - x[0]))

    def __mul__(self, o):
        n = num(o)
        if n is None:
            if type(o) in (bytes, str, list, tuple) or isinstance(o, SymBytes):
                return o * self.__index__()
            return NotImplemented

        def lh(x, y):
            p = [x[0] * y[0], x[0] * y[1], x[1] * y[0], x[1] * y[1]]
            return min(p), max(p)
        return self._bin(n, lambda a, b: a * b, lh)

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __invert__(self):
        return -1 - self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return ite(self < 0, -self, self)

    def _bit(self, o, kind):
        o = num(o)
        if o is None:
            return NotImplemented
        (a0, a1), (b0, b1) = bounds(self), bounds(o)
        if a0 >= 0 and b0 >= 0:
            if kind == "&":
                if type(o) is int:
                    if o == 0:
                        return 0
                    k = o.bit_length()
                    if o == (1 << k) - 1:
                        if a1 <= o:
                            return self
                        return mkint(z3.Extract(k - 1, 0, self.z) if self.z.size() > k else self.z, 0, min(a1, o))
                w = need(0, min(a1, b1))
                return mkint(to_w(self, w) & to_w(o, w), 0, min(a1, b1))
            if type(o) is int and o == 0:
                return self
            w = need(0, max(a1, b1))
            hi = (1 << w) - 1
            lo = max(a0, b0) if kind == "|" else 0
            z = to_w(self, w) | to_w(o, w) if kind == "|" else to_w(self, w) ^ to_w(o, w)
            return mkint(z, lo, hi)
        w = max(need(min(a0, -1), a1), need(min(b0, -1), b1))
        x, y = to_w(self, w), to_w(o, w)
        if kind == "&":
            z = x & y
            if a0 >= 0 or b0 >= 0:
                hi = a1 if a0 >= 0 else b1
                return mkint(z3.Extract(need(0, hi) - 1, 0, z) if w > need(0, hi) else z, 0, hi)
        else:
            z = x | y if kind == "|" else x ^ y
        return mkint(z, -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def __and__(self, o):
        return self._bit(o, "&")

    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, "|")

    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, "^")

    __rxor__ = __xor__

    def __lshift__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if type(o) is SymInt:
            return _shl(self, o)
        if o < 0:
            raise ValueError("negative shift count")
        return self * (1 << o)

    def __rlshift__(self, o):
        return _shl(num(o), self)

    def __rshift__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if type(o) is SymInt:
            return _shr(self, o)
        if o < 0:
            raise ValueError("negative shift count")
        if o == 0:
            return self
        if self.lo >= 0:
            s = self.z.size()
            if o >= s:
                return 0
            return mkint(z3.Extract(s - 1, o, self.z), self.lo >> o, self.hi >> o)
        s = self.z.size()
        return mkint(self.z >> min(o, s), self.lo >> o, self.hi >> o)

    def __rrshift__(self, o):
        return _shr(num(o), self)

    def _divmod_const(self, c):
        if c == 1:
            return self, 0
        if c < 0:
            q, m = (-self)._divmod_const(-c)
            return q, -m
        if self.lo >= 0:
            if self.hi < c:
                return 0, self
            w = max(need(0, self.hi), need(0, c))
            if c & (c - 1) == 0:
                k = c.bit_length() - 1
                return self >> k, self & (c - 1)
            a, b = to_w(self, w), BV(c, w)
            qlo, qhi = self.lo // c, self.hi // c
            return mkint(z3.UDiv(a, b), qlo, qhi), mkint(z3.URem(a, b), 0, c - 1)
        w = max(need(self.lo, self.hi), need(-1, c)) + 1
        a, b = to_w(self, w), BV(c, w)
        m = mkint(z3.SRem(a, b), -(c - 1), c - 1)
        m = ite(m < 0, m + c, m)
        m = mkint(to_w(m, need(0, c - 1)), 0, c - 1)
        d = self - m
        q = mkint(to_w(d, w) / b, self.lo // c, self.hi // c)
        return q, m

    def __divmod__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if type(o) is SymInt:
            if bool(o == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if self.lo >= 0 and o.lo >= 0:
                w = max(self.z.size(), o.z.size())
                a, b = to_w(self, w), to_w(o, w)
                return mkint(z3.UDiv(a, b), 0, self.hi), mkint(z3.URem(a, b), 0, min(self.hi, max(o.hi - 1, 0)))
            o = o.__index__()
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return self._divmod_const(o)

    def __floordiv__(self, o):
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[1]

    def __rdivmod__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if bool(self == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if o >= 0 and self.lo >= 0:
            w = max(need(0, o), self.z.size())
            a, b = BV(o, w), to_w(self, w)
            return mkint(z3.UDiv(a, b), 0, o), mkint(z3.URem(a, b), 0, min(o, max(self.hi - 1, 0)))
        return divmod(o, self.__index__())

    def __rfloordiv__(self, o):
        r = self.__rdivmod__(o)
        return r if r is NotImplemented else r[0]

    def __rmod__(self, o):
        r = self.__rdivmod__(o)
        return r if r is NotImplemented else r[1]

    def __pow__(self, o, m=None):
        if type(o) is int and 0 <= o <= 4 and m is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.__index__(), o, m)

    def __rpow__(self, o):
        if o == 2 and self.lo >= 0 and self.hi <= 256:
            return _shl(1, self)
        return o ** self.__index__()

    def __truediv__(self, o):
        return self.__index__() / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    # comparison -----------------------------------------------------
    def _cmp(self, o, kind):
        o = num(o)
        if o is None:
            return NotImplemented
        (a0, a1), (b0, b1) = bounds(self), bounds(o)
        if kind == "==":
            if a1 < b0 or b1 < a0:
                return False
            if o is self:
                return True
        elif kind == "<":
            if a1 < b0:
                return True
            if a0 >= b1:
                return False
        elif kind == "<=":
            if a1 <= b0:
                return True
            if a0 > b1:
                return False
        s = a0 < 0 or b0 < 0
        w = max(need(min(a0, -1), a1), need(min(b0, -1), b1)) if s else max(need(a0, a1), need(b0, b1))
        x, y = to_w(self, w), to_w(o, w)
        if kind == "==":
            if type(o) is int and o in (0x0D, 0x1B, 0x8D) and 0 <= a0 and a1 <= 255 and "quiet_cmp" in core.CUR.tables and x.num_args():
                e = core.CUR
                q = e.tables["quiet_cmp"]
                k = self.z.get_id()
                if k not in q:
                    q[k] = self.z
                    if not only_vars(self.z, e.tables["quiet_free"]):
                        e.assume(z3.And(*[to_w(self, 8) != r for r in (0x0D, 0x1B, 0x8D)]))
            return mkbool(x == y) if not x.eq(y) else True
        if kind == "<":
            return mkbool(x < y if s else z3.ULT(x, y))
        return mkbool(x <= y if s else z3.ULE(x, y))

    def __eq__(self, o):
        r = self._cmp(o, "==")
        if r is NotImplemented:
            if type(o) is float:
                return self == int(o) if o.is_integer() else False
            return r
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        r = self._cmp(o, "<")
        if r is NotImplemented and type(o) is float:
            import math
            return self < math.ceil(o) if o == o and abs(o) != float("inf") else (o > 0)
        return r

    def __le__(self, o):
        r = self._cmp(o, "<=")
        if r is NotImplemented and type(o) is float:
            import math
            return self <= math.floor(o) if o == o and abs(o) != float("inf") else (o > 0)
        return r

    def __gt__(self, o):
        n = num(o)
        if n is None:
            if type(o) is float:
                return not_(self.__le__(o))
            return NotImplemented
        return not_(self._cmp(n, "<="))

    def __ge__(self, o):
        n = num(o)
        if n is None:
            if type(o) is float:
                return not_(self.__lt__(o))
            return NotImplemented
        return not_(self._cmp(n, "<"))

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __index__(self):
        v = core.CUR.concretise(self.z)
        if self.lo < 0 and v >= 1 << (self.z.size() - 1):
            v -= 1 << self.z.size()
        if not self.lo <= v <= self.hi:
            core.CUR.die(core.Unsupported("the solver's model does not satisfy the path"))
        return v

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return marker(self)

    __str__ = __repr__

    def __format__(self, s):
        return marker(self, s)

    # methods --------------------------------------------------------
    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        n = length.__index__()
        if n < 0:
            raise ValueError("length argument must be non-negative")
        if byteorder not in ("little", "big"):
            raise ValueError("byteorder must be either 'little' or 'big'")
        if signed:
            lim_lo, lim_hi = -(1 << (8 * n - 1)) if n else 0, (1 << (8 * n - 1)) - 1 if n else 0
        else:
            lim_lo, lim_hi = 0, (1 << (8 * n)) - 1
            if self.lo < 0 and bool(self < 0):
                raise OverflowError("can't convert negative int to unsigned")
        if self.hi > lim_hi and bool(self > lim_hi):
            raise OverflowError("int too big to convert")
        if signed and self.lo < lim_lo and bool(self < lim_lo):
            raise OverflowError("int too big to convert")
        if n == 0:
            return b""
        p = self.prov
        if p and p[0] == "le":
            el = list(p[1][:n]) + [0] * (n - len(p[1]))
            if byteorder == "big":
                el.reverse()
            return SymBytes._mk(el)
        z = to_w(self, 8 * n)
        el = [mkint(z3.simplify(z3.Extract(8 * i + 7, 8 * i, z)), 0, 255) for i in range(n)]
        if byteorder == "big":
            el.reverse()
        return SymBytes._mk(el)

    def bit_length(self):
        a = abs(self)
        if type(a) is int:
            return a.bit_length()
        r = 0
        for k in range(a.hi.bit_length()):
            r = ite(a >= (1 << k), k + 1, r)
        return r

    def bit_count(self):
        a = abs(self)
        if type(a) is int:
            return a.bit_count()
        r = 0
        for k in range(a.z.size()):
            r = r + ((a >> k) & 1)
        return r

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    @property
    def imag(self):
        return 0

    @property
    def value(self):  # an integer standing for an IntEnum member
        return self

    def is_integer(self):
        return True


def _shl(a, k):
    if a is None:
        return NotImplemented
    if k.lo < 0 and bool(k < 0):
        raise ValueError("negative shift count")
    if k.hi > 512:
        k = k.__index__()
        return a << k
    lo, hi = bounds(a)
    nlo, nhi = min(lo << k.hi, lo), max(hi << k.hi, hi)
    w = need(nlo, nhi)
    w = max(w, need(0, k.hi))
    return mkint(to_w(a, w) << to_w(k, w), nlo, nhi)


def _shr(a, k):
    if a is None:
        return NotImplemented
    if k.lo < 0 and bool(k < 0):
        raise ValueError("negative shift count")
    lo, hi = bounds(a)
    if lo < 0:
        return a >> k.__index__()
    w = max(need(lo, hi), need(0, max(k.hi, 1)))
    return mkint(z3.LShR(to_w(a, w), to_w(k, w)), 0, hi)


def ite(c, a, b):
    """value-level if-then-else on integers / booleans; c is bool or SymBool."""
    if type(c) is not SymBool:
        return a if c else b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        if type(a) is bool and type(b) is bool and a == b:
            return a
        return mkbool(z3.If(c.z, zbool(a), zbool(b)))
    x, y = num(a), num(b)
    if x is None or y is None:
        raise TypeError("ite")
    (a0, a1), (b0, b1) = bounds(x), bounds(y)
    if type(x) is int and type(y) is int and x == y:
        return x
    lo, hi = min(a0, b0), max(a1, b1)
    w = need(lo, hi)
    return mkint(z3.If(c.z, to_w(x, w), to_w(y, w)), lo, hi)


def can_merge(a, b):
    return (is_num(a) and is_num(b)) or a is b


def new_int(name, lo, hi):
    if lo == hi:
        return lo
    w = need(lo, hi)
    z = z3.BitVec(name, w)
    r = SymInt(z, lo, hi)
    full = (0, (1 << w) - 1) if lo >= 0 else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if (lo, hi) != full:
        conds = []
        if lo < 0:
            conds = [z >= BV(lo, w), z <= BV(hi, w)]
        else:
            if lo > 0:
                conds.append(z3.UGE(z, BV(lo, w)))
            if hi != full[1]:
                conds.append(z3.ULE(z, BV(hi, w)))
        core.CUR.assume(z3.And(*conds) if len(conds) > 1 else conds[0])
    return r


_TABLES = {}


def table_lookup(table, idx):
    """table: sequence of ints; idx: SymInt known to be inside the table."""
    key = tuple(table)
    k = max(1, (len(key) - 1).bit_length())
    lo, hi = min(key), max(key)
    if lo == hi:
        return lo
    iz = to_w(idx, k)
    full = len(key) == 1 << k
    if full and lo >= 0:
        aff = _TABLES.get(key)
        if aff is None:
            base = key[0]
            cols = [key[1 << i] ^ base for i in range(k)]
            ok = True
            for i, v in enumerate(key):
                x = base
                for j in range(k):
                    if i >> j & 1:
                        x ^= cols[j]
                if x != v:
                    ok = False
                    break
            aff = _TABLES[key] = (base, cols) if ok else False
        if aff:
            base, cols = aff
            w = need(lo, hi)
            bits = []
            for b in range(w):
                srcs = [z3.Extract(j, j, iz) for j in range(k) if cols[j] >> b & 1]
                if base >> b & 1:
                    srcs.append(BV(1, 1))
                if not srcs:
                    bits.append(BV(0, 1))
                else:
                    t = srcs[0]
                    for s in srcs[1:]:
                        t = t ^ s
                    bits.append(t)
            bits.reverse()
            z = z3.Concat(*bits) if len(bits) > 1 else bits[0]
            return mkint(z, 0, (1 << w) - 1)
    w = need(lo, hi)

    def tree(off, bit):
        if bit < 0:
            return BV(key[off] if off < len(key) else 0, w)
        if off >= len(key):
            return BV(0, w)
        a = tree(off, bit - 1)
        b = tree(off + (1 << bit), bit - 1)
        if a.eq(b):
            return a
        return z3.If(z3.Extract(bit, bit, iz) == BV(1, 1), b, a)
    return mkint(tree(0, k - 1), lo, hi)


# ------------------------------------------------------------------ markers
MARK_A, MARK_B = "\ue000", "\ue001"


def marker(obj, spec=""):
    e = core.CUR
    e.markers.append((obj, spec))
    return "%s%d%s" % (MARK_A, len(e.markers) - 1, MARK_B)


def expand(s):
    """native str possibly containing markers -> str or SymStr."""
    if type(s) is not str or MARK_A not in s:
        return s
    out = []
    i = 0
    while i < len(s):
        if s[i] == MARK_A:
            j = s.index(MARK_B, i)
            obj, spec = core.CUR.markers[int(s[i + 1:j])]
            out.extend(_fmt_parts(obj, spec))
            i = j + 1
        else:
            out.append(ord(s[i]))
            i += 1
    return SymStr._mk(out)


def _fmt_parts(obj, spec):
    t = type(obj)
    if t is tuple and obj[0] == "repr":
        return repr_parts(obj[1])
    if t is SymInt:
        if spec in ("", "d"):
            return [Dec(obj)]
        return format_int_parts(obj, spec)
    if t is SymBool:
        return list(map(ord, "True" if bool(obj) else "False"))
    if isinstance(obj, SymStr):
        return list(obj._p)
    if isinstance(obj, SymBytes):
        return repr_parts(obj)
    if t is SymFloat:
        return [FStr(obj)]
    if t is SymDatetime:
        return list(obj.isoformat(" ")._p)
    unsupported("format of %s" % t.__name__)


def repr_parts(obj):
    if isinstance(obj, SymStr):
        return [39] + list(obj._chars()) + [39]
    if isinstance(obj, SymByteArray):
        return list(map(ord, "bytearray(b'")) + list(obj._e) + list(map(ord, "')"))
    if isinstance(obj, SymBytes):
        return list(map(ord, "b'")) + list(obj._e) + [39]
    return _fmt_parts(obj, "")


def format_int_parts(x, spec):
    import re
    m = re.fullmatch(r"(0?)(\d*)([dxXb]?)", spec)
    if not m:
        unsupported("format spec %r" % spec)
    zero, width, ty = m.groups()
    ty = ty or "d"
    if x.lo < 0 and bool(x < 0):
        unsupported("format of a negative integer")
    if ty == "d":
        ch = Dec(x).chars()
    else:
        per = 4 if ty in "xX" else 1
        n = max(1, -(-x.hi.bit_length() // per))
        digs = [(x >> (per * i)) & ((1 << per) - 1) for i in range(n)]
        k = n
        while k > 1 and bool(digs[k - 1] == 0):
            k -= 1
        ch = [hexchar(d, ty == "X") for d in reversed(digs[:k])]
    w = int(width or 0)
    if len(ch) < w:
        ch = [48 if zero else 32] * (w - len(ch)) + ch
    return ch


def hexchar(n, upper=False):
    if type(n) is not SymInt:
        return ord(("%X" if upper else "%x") % n)
    r = ite(n < 10, n + 48, n + (55 if upper else 87))
    if type(r) is SymInt:
        r = SymInt(r.z, r.lo, r.hi, ("nib", n))
    return r


class Dec:
    """decimal digits of an integer, resolved lazily"""
    __slots__ = ("x", "_c")

    def __init__(self, x):
        self.x = x
        self._c = None

    def chars(self):
        if self._c is not None:
            return self._c
        x = self.x
        if x.lo < 0 and bool(x < 0):
            self._c = [45] + Dec(-x).chars()
            return self._c
        p = x.prov
        if p and p[0] == "digits":
            d = list(p[1])
            while len(d) > 1 and bool(num(d[0]) == 0):
                d.pop(0)
            self._c = [digchar(v) for v in d]
            return self._c
        n = 1
        while x.hi >= 10 ** n and not bool(x < 10 ** n):
            n += 1
        self._c = [digchar((x // 10 ** i) % 10) for i in range(n - 1, -1, -1)]
        return self._c


def digchar(d):
    if type(d) is not SymInt:
        return 48 + d
    r = d + 48
    return SymInt(r.z, r.lo, r.hi, ("nib", d))


class FStr:
    """repr of a float, resolved only through float()"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


# ------------------------------------------------------------------ bytes
def byte_elem(x):
    """x as a byte element (int or SymInt in 0..255); raises like bytearray.append."""
    n = num(x)
    if n is None:
        if hasattr(x, "__index__"):
            n = x.__index__()
        else:
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
    lo, hi = bounds(n)
    if lo < 0 or hi > 255:
        if not bool(and_all([n >= 0, n <= 255])):
            raise ValueError("byte must be in range(0, 256)")
        if type(n) is SymInt:
            n = mkint(to_w(n, 8), 0, 255, n.prov)
    return n


def elems(x):
    """elements of any bytes-like (or iterable of ints)"""
    if isinstance(x, SymBytes):
        return x._e
    if type(x) in (bytes, bytearray):
        return list(x)
    if isinstance(x, memoryview):
        return list(x.tobytes())
    raise TypeError("a bytes-like object is required, not '%s'" % type(x).__name__)


def is_bytes(x):
    return isinstance(x, (bytes, bytearray))


def eq_elem(a, b):
    return a == b


def only_vars(z, prefixes):
    """z is a small term over the inputs named"""
    stack, seen = [z], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > 40:
            return False
        if x.num_args() == 0 and not z3.is_bv_value(x):
            if not any(x.decl().name().startswith(p) for p in prefixes):
                return False
        stack.extend(x.children())
    return True


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    return and_all([x == y for x, y in zip(a, b)])


def any_sym(el):
    for x in el:
        if type(x) is not int:
            return True
    return False


WS = (9, 10, 11, 12, 13, 32)
WS_STR = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xA0)


def in_set(x, chars):
    if type(x) is not SymInt:
        return x in chars
    return or_any([x == c for c in chars])


class SymBytes:
    _mutable = False

    def __init__(self, src=b"", *args):
        self._e = _make_elems(src, *args)

    @classmethod
    def _raw(cls, el):
        r = cls.__new__(cls)
        r._e = list(el)
        return r

    @staticmethod
    def _mk(el):
        """immutable bytes: native when fully concrete"""
        if not any_sym(el):
            return bytes(el)
        return SymBytes._raw(el)

    def _new(self, el):
        if isinstance(self, SymByteArray):
            return SymByteArray._raw(el)
        return SymBytes._mk(el)

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return len(self._e)

    def __iter__(self):
        i = 0
        while i < len(self._e):
            yield self._e[i]
            i += 1

    def __bool__(self):
        return len(self._e) > 0

    def _idx(self, i):
        n = len(self._e)
        if type(i) is SymInt:
            if bool(or_any([i >= n, i < -n])):
                raise IndexError("index out of range")
            return i.__index__()
        i = i.__index__()
        if i < -n or i >= n:
            raise IndexError("index out of range")
        return i

    def __getitem__(self, i):
        if type(i) is slice:
            return self._new(self._e[conc_slice(i, len(self._e))])
        if type(i) is SymInt:
            n = len(self._e)
            if bool(or_any([i >= n, i < -n])):
                raise IndexError("index out of range")
            if i.lo < 0:
                i = ite(i < 0, i + n, i)
            r = self._e[n - 1]
            for k in range(n - 2, -1, -1):
                r = ite(i == k, self._e[k], r)
            return r
        return self._e[self._idx(i)]

    def __add__(self, o):
        if not is_bytes(o):
            return NotImplemented
        return self._new(list(self._e) + list(elems(o)))

    def __radd__(self, o):
        if not is_bytes(o):
            return NotImplemented
        el = list(elems(o)) + list(self._e)
        return SymBytes._mk(el)

    def __mul__(self, n):
        return self._new(list(self._e) * n.__index__())

    __rmul__ = __mul__

    def __eq__(self, o):
        if not is_bytes(o):
            return False if not isinstance(o, memoryview) else seq_eq(self._e, elems(o))
        return seq_eq(self._e, elems(o))

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def _lex(self, o, strict):
        if not is_bytes(o):
            return NotImplemented
        a, b = self._e, elems(o)
        r = (len(a) < len(b)) if strict else (len(a) <= len(b))
        for x, y in reversed(list(zip(a, b))):
            r = or_any([x < y, and_all([x == y, r])])
        return r

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        return not_(self._lex(o, False))

    def __ge__(self, o):
        return not_(self._lex(o, True))

    def _conc(self):
        return bytes([x if type(x) is int else x.__index__() for x in self._e])

    def __hash__(self):
        return hash(self._conc())

    def __bytes__(self):
        return self._conc()

    def __buffer__(self, flags):
        return memoryview(self._conc())

    def __repr__(self):
        if not any_sym(self._e):
            return repr(bytes(self._e)) if not isinstance(self, SymByteArray) else repr(bytearray(self._e))
        return marker(("repr", self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(self.__repr__(), spec)

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        if is_num(o):
            return or_any([x == o for x in self._e])
        p = elems(o)
        return or_any([seq_eq(self._e[i:i + len(p)], p) for i in range(len(self._e) - len(p) + 1)])

    def __copy__(self):
        return self._raw_same(self._e)

    def _raw_same(self, el):
        r = type(self).__new__(type(self))
        r._e = list(el)
        return r

    def __deepcopy__(self, memo):
        return self._raw_same(self._e)

    # search -----------------------------------------------------------
    def _pat(self, p):
        return [byte_elem(p)] if is_num(p) else elems(p)

    def _range(self, start, end):
        n = len(self._e)
        return conc_slice(slice(start, end), n).indices(n)[:2]

    def find(self, p, start=None, end=None):
        p = self._pat(p)
        a, b = self._range(start, end)
        for i in range(a, b - len(p) + 1):
            if bool(seq_eq(self._e[i:i + len(p)], p)):
                return i
        return -1

    def rfind(self, p, start=None, end=None):
        p = self._pat(p)
        a, b = self._range(start, end)
        for i in range(b - len(p), a - 1, -1):
            if bool(seq_eq(self._e[i:i + len(p)], p)):
                return i
        return -1

    def index(self, p, start=None, end=None):
        i = self.find(p, start, end)
        if i < 0:
            raise ValueError("subsection not found")
        return i

    def rindex(self, p, start=None, end=None):
        i = self.rfind(p, start, end)
        if i < 0:
            raise ValueError("subsection not found")
        return i

    def count(self, p, start=None, end=None):
        p = self._pat(p)
        a, b = self._range(start, end)
        if len(p) == 1:
            r = 0
            for x in self._e[a:b]:
                r = r + ite(x == p[0], 1, 0)
            return r
        r, i = 0, a
        while i <= b - len(p):
            if bool(seq_eq(self._e[i:i + len(p)], p)):
                r += 1
                i += len(p)
            else:
                i += 1
        return r

    def startswith(self, p, start=None, end=None):
        a, b = self._range(start, end)
        e = self._e[a:b]
        ps = p if isinstance(p, tuple) else (p,)
        return or_any([seq_eq(e[:len(elems(q))], elems(q)) for q in ps])

    def endswith(self, p, start=None, end=None):
        a, b = self._range(start, end)
        e = self._e[a:b]
        ps = p if isinstance(p, tuple) else (p,)
        return or_any([seq_eq(e[len(e) - len(elems(q)):], elems(q)) if len(elems(q)) <= len(e) else False for q in ps])

    # transformation ---------------------------------------------------
    def replace(self, old, new, count=-1):
        old, new = elems(old), elems(new)
        if len(old) == 1 and len(new) == 1 and count == -1:
            return self._new([ite(x == old[0], new[0], x) for x in self._e])
        out, i, e = [], 0, self._e
        if not old:
            unsupported("replace of the empty string")
        while i < len(e):
            if count != 0 and i + len(old) <= len(e) and bool(seq_eq(e[i:i + len(old)], old)):
                out.extend(new)
                i += len(old)
                count -= 1
            else:
                out.append(e[i])
                i += 1
        return self._new(out)

    def _strip(self, chars, left, right):
        cs = WS if chars is None else elems(chars)
        e = list(self._e)
        if left:
            while e and bool(in_set(e[0], cs)):
                e.pop(0)
        if right:
            while e and bool(in_set(e[-1], cs)):
                e.pop()
        return self._new(e)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            unsupported("bytes.split()")
        sep = elems(sep)
        out, curr, i, e = [], [], 0, self._e
        while i < len(e):
            if maxsplit != 0 and bool(seq_eq(e[i:i + len(sep)], sep)):
                out.append(self._new(curr))
                curr = []
                i += len(sep)
                maxsplit -= 1
            else:
                curr.append(e[i])
                i += 1
        out.append(self._new(curr))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self._new(self._e), self._new([]), self._new([])
        n = len(elems(sep))
        return self._new(self._e[:i]), sep, self._new(self._e[i + n:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self._new([]), self._new([]), self._new(self._e)
        n = len(elems(sep))
        return self._new(self._e[:i]), sep, self._new(self._e[i + n:])

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == 1:
            a, s, b = self.rpartition(sep)
            return [a, b] if len(s) else [b]
        return self.split(sep, maxsplit)

    def removeprefix(self, p):
        return self[len(p):] if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and bool(self.endswith(p)) else self

    def join(self, items):
        out = []
        for k, it in enumerate(items):
            if k:
                out.extend(self._e)
            out.extend(elems(it))
        return self._new(out)

    def hex(self, sep=None, every=1):
        if sep is not None and every != 1:
            unsupported("bytes.hex in groups")
        sep = [] if sep is None else [ord(sep)]
        ch = []
        for x in self._e:
            n = num(x)
            if ch:
                ch.extend(sep)
            ch.append(hexchar(n >> 4))
            ch.append(hexchar(n & 15))
        return SymStr._mk(ch)

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if enc in ("latin-1", "latin1", "iso-8859-1", "iso8859-1", "8859", "l1"):
            return SymStr._mk(list(self._e))
        if enc in ("ascii", "us-ascii", "utf-8", "utf8"):
            for i, x in enumerate(self._e):
                if not bool(x < 128):
                    if errors == "ignore" and "8" not in enc:
                        return SymStr._mk([y for y in self._e if bool(y < 128)])
                    if errors == "replace" and "8" not in enc:
                        return SymStr._mk([y if bool(y < 128) else 0xFFFD for y in self._e])
                    if errors != "strict" or "8" in enc:
                        unsupported("decode of non-ascii bytes as " + enc)
                    raise UnicodeDecodeError("ascii", b"?", 0, 1, "ordinal not in range(128)")
            return SymStr._mk(list(self._e))
        unsupported("decode " + encoding)

    def translate(self, table, delete=b""):
        if len(delete):
            el = [x for x in self._e if not bool(in_set(x, elems(delete)))]
        else:
            el = self._e
        if table is None:
            return self._new(el)
        t = elems(table)
        return self._new([table_lookup(t, x) if type(x) is SymInt else t[x] for x in el])

    def ljust(self, w, fill=b" "):
        return self._new(list(self._e) + elems(fill) * max(0, w - len(self._e)))

    def rjust(self, w, fill=b" "):
        return self._new(elems(fill) * max(0, w - len(self._e)) + list(self._e))

    def zfill(self, w):
        return self.rjust(w, b"0")

    def isdigit(self):
        return len(self._e) > 0 and bool(and_all([and_all([x >= 48, x <= 57]) for x in self._e]))

    def isascii(self):
        return bool(and_all([x < 128 for x in self._e]))

    def tobytes(self):
        return SymBytes._mk(self._e)

    def tolist(self):
        return list(self._e)

    def toreadonly(self):
        return self

    def release(self):
        pass

    def cast(self, fmt, *a):
        if a or fmt not in ("B", "c"):
            unsupported("memoryview.cast")
        return self

    nbytes = property(lambda self: len(self._e))
    itemsize = 1
    format = "B"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if not any_sym(self._e) and hasattr(bytes, name):
            return getattr(bytes(self._e), name)
        if hasattr(bytes, name):
            unsupported("bytes." + name)
        raise AttributeError("'bytes' object has no attribute %r" % name)

    @classmethod
    def fromhex(cls, s):
        return cls._mk2(fromhex_elems(s))

    @classmethod
    def _mk2(cls, el):
        return SymBytes._mk(el) if cls is SymBytes else cls._raw(el)


def conc_slice(s, n):
    if type(s.start) is int or s.start is None:
        if type(s.stop) is int or s.stop is None:
            return s

    def c(x):
        if type(x) is SymInt:
            if x.lo < 0:
                x = ite(x < 0, ite(x < -n, 0, x + n), x)
                if type(x) is not SymInt:
                    return x
            x = ite(x > n, n, x)
            if type(x) is SymInt:
                x = mkint(x.z, max(0, x.lo), min(n, x.hi))
            return x.__index__() if type(x) is SymInt else x
        return x
    return slice(c(s.start), c(s.stop), s.step)


def fromhex_elems(s):
    ch = str_chars(s)
    nibs = []
    for c in ch:
        if type(c) is int and c in (32, 9, 10, 13, 11, 12):
            if len(nibs) % 2:
                raise ValueError("non-hexadecimal number found in fromhex() arg")
            continue
        nibs.append(hexval(c))
    if len(nibs) % 2:
        raise ValueError("non-hexadecimal number found in fromhex() arg")
    out = []
    for i in range(0, len(nibs), 2):
        v = nibs[i] * 16 + nibs[i + 1]
        out.append(v if type(v) is not SymInt else mkint(to_w(v, 8), 0, 255))
    return out


def hexval(c):
    if type(c) is int:
        try:
            return int(chr(c), 16) if chr(c) in "0123456789abcdefABCDEF" else _bad()
        except ValueError:
            raise ValueError("non-hexadecimal number found in fromhex() arg")
    if c.prov and c.prov[0] == "nib":
        n = c.prov[1]
        if n.hi <= 15:
            return n
    if bool(and_all([c >= 48, c <= 57])):
        return mkint(to_w(c - 48, 4), 0, 9)
    if bool(and_all([c >= 97, c <= 102])):
        return mkint(to_w(c - 87, 4), 10, 15)
    if bool(and_all([c >= 65, c <= 70])):
        return mkint(to_w(c - 55, 4), 10, 15)
    raise ValueError("non-hexadecimal number found in fromhex() arg")


def _bad():
    raise ValueError


def _make_elems(src=b"", *args):
    if isinstance(src, str):
        if not args:
            raise TypeError("string argument without an encoding")
        return list(elems(str_encode(src, *args)))
    if isinstance(src, SymBytes):
        return list(src._e)
    if type(src) in (bytes, bytearray):
        return list(src)
    n = num(src)
    if n is not None:
        k = n if type(n) is int else n.__index__()
        if k < 0:
            raise ValueError("negative count")
        return [0] * k
    if hasattr(src, "__bytes__"):
        return list(src.__bytes__())
    if hasattr(src, "__index__"):
        return [0] * src.__index__()
    if isinstance(src, memoryview):
        return list(src.tobytes())
    try:
        it = iter(src)
    except TypeError:
        raise TypeError("cannot convert '%s' object to bytes" % type(src).__name__)
    return [byte_elem(x) for x in it]


class SymByteArray(SymBytes):
    @property
    def __class__(self):
        return bytearray

    __hash__ = None

    def append(self, x):
        self._e.append(byte_elem(x))

    def extend(self, it):
        if is_bytes(it):
            self._e.extend(elems(it))
        elif isinstance(it, str):
            raise TypeError("expected iterable of integers; got: 'str'")
        else:
            self._e.extend([byte_elem(x) for x in it])

    def pop(self, i=-1):
        if not self._e:
            raise IndexError("pop from empty bytearray")
        n = len(self._e)
        i = i.__index__()
        if i < -n or i >= n:
            raise IndexError("pop index out of range")
        return self._e.pop(i)

    def insert(self, i, x):
        self._e.insert(i.__index__(), byte_elem(x))

    def clear(self):
        self._e.clear()

    def reverse(self):
        self._e.reverse()

    def remove(self, v):
        for i, x in enumerate(self._e):
            if bool(x == v):
                del self._e[i]
                return
        raise ValueError("value not found in bytearray")

    def copy(self):
        return SymByteArray._raw(self._e)

    def __iadd__(self, o):
        if not is_bytes(o):
            raise TypeError("can't concat %s to bytearray" % type(o).__name__)
        self._e.extend(list(elems(o)))
        return self

    def __imul__(self, n):
        self._e *= n.__index__()
        return self

    def __setitem__(self, i, v):
        if type(i) is slice:
            if is_num(v):
                v = SymByteArray(v)
            self._e[conc_slice(i, len(self._e))] = list(elems(v)) if is_bytes(v) else [byte_elem(x) for x in v]
        else:
            self._e[self._idx(i)] = byte_elem(v)

    def __delitem__(self, i):
        if type(i) is slice:
            del self._e[conc_slice(i, len(self._e))]
        else:
            del self._e[self._idx(i)]


# ------------------------------------------------------------------ str
def str_chars(s):
    if isinstance(s, SymStr):
        return s._chars()
    s = expand(s)
    if isinstance(s, SymStr):
        return s._chars()
    return [ord(c) for c in s]


def str_parts(s):
    if isinstance(s, SymStr):
        return s._p
    if MARK_A in s:
        s = expand(s)
        if isinstance(s, SymStr):
            return s._p
    return [ord(c) for c in s]


def str_encode(s, encoding="utf-8", errors="strict"):
    if type(s) is str and MARK_A not in s:
        return s.encode(encoding, errors)
    enc = encoding.lower().replace("_", "-")
    ch = str_chars(s)
    if enc in ("latin-1", "latin1", "iso-8859-1", "iso8859-1"):
        lim = 255
    elif enc in ("ascii", "us-ascii", "utf-8", "utf8"):
        lim = 127
    else:
        unsupported("encode " + encoding)
    out = []
    for c in ch:
        if bounds(c)[1] > lim and not bool(c <= lim):
            if errors != "strict":
                unsupported("encode errors=" + errors)
            if enc in ("utf-8", "utf8"):
                if type(c) is int:
                    out.extend(chr(c).encode("utf-8"))
                else:
                    c = mkint(to_w(c, 8), 0, 255)
                    out.append((c >> 6) | 0xC0)
                    out.append((c & 63) | 0x80)
                continue
            raise UnicodeEncodeError(encoding, "?", 0, 1, "ordinal not in range(%d)" % (lim + 1))
        out.append(c if type(c) is int else mkint(to_w(c, 8), 0, 255, c.prov))
    return SymBytes._mk(out)


class SymStr:
    def __init__(self, src="", *args):
        if args:
            src = src.decode(*args) if not isinstance(src, str) else src
        if not isinstance(src, str):
            src = to_str(src)
        self._p = list(str_parts(src))

    @staticmethod
    def _mk(parts):
        for x in parts:
            if type(x) is not int:
                r = SymStr.__new__(SymStr)
                r._p = list(parts)
                return r
        return "".join(map(chr, parts))

    @property
    def __class__(self):
        return str

    def _chars(self):
        for x in self._p:
            t = type(x)
            if t is Dec or t is FStr:
                break
        else:
            return self._p
        out = []
        for x in self._p:
            t = type(x)
            if t is Dec:
                out.extend(x.chars())
            elif t is FStr:
                unsupported("characters of a symbolic float's text")
            else:
                out.append(x)
        self._p = out
        return out

    def __len__(self):
        return len(self._chars())

    def __bool__(self):
        for x in self._p:
            return True
        return False

    def __iter__(self):
        for c in list(self._chars()):
            yield SymStr._mk([c])

    def __getitem__(self, i):
        ch = self._chars()
        if type(i) is slice:
            return SymStr._mk(ch[conc_slice(i, len(ch))])
        if type(i) is SymInt:
            i = i.__index__()
        return SymStr._mk([ch[i]])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr._mk(list(self._p) + list(str_parts(o)))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr._mk(list(str_parts(o)) + list(self._p))

    def __mul__(self, n):
        return SymStr._mk(list(self._p) * n.__index__())

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        a, b = self._p, str_parts(o)
        r = _lazy_eq(a, b)
        if r is not None:
            return r
        return seq_eq(self._chars(), str_chars(o))

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __lt__(self, o):
        return SymBytes._lex(_Seq(self._chars()), _Seq(str_chars(o)), True)

    def __hash__(self):
        return hash(self._conc())

    def _conc(self):
        return "".join(chr(c if type(c) is int else c.__index__()) for c in self._chars())

    def __repr__(self):
        return marker(("repr", self))

    def __str__(self):
        if all(type(x) is int for x in self._p):
            return "".join(map(chr, self._p))
        return marker(self)

    def __format__(self, spec):
        return marker(self)

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        p, e = str_chars(o), self._chars()
        return or_any([seq_eq(e[i:i + len(p)], p) for i in range(len(e) - len(p) + 1)])

    def encode(self, encoding="utf-8", errors="strict"):
        return str_encode(self, encoding, errors)

    def _b(self):
        return _Seq(self._chars())

    def startswith(self, p, *a):
        ps = p if isinstance(p, tuple) else (p,)
        e = self._chars()[slice(*((a + (None,))[:2]))] if a else self._chars()
        return or_any([seq_eq(e[:len(q)], str_chars(q)) for q in ps])

    def endswith(self, p):
        ps = p if isinstance(p, tuple) else (p,)
        e = self._chars()
        return or_any([len(q) <= len(e) and seq_eq(e[len(e) - len(q):], str_chars(q)) for q in ps])

    def find(self, p, *a):
        return SymBytes.find(self._b(), _Seq(str_chars(p)), *a)

    def rfind(self, p, *a):
        return SymBytes.rfind(self._b(), _Seq(str_chars(p)), *a)

    def index(self, p, *a):
        r = self.find(p, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, p, *a):
        r = self.rfind(p, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, p):
        return SymBytes.count(self._b(), _Seq(str_chars(p)))

    def replace(self, old, new, count=-1):
        r = SymBytes.replace(self._b(), _Seq(str_chars(old)), _Seq(str_chars(new)), count)
        return SymStr._mk(r._e)

    def _strip(self, chars, l, r):
        cs = WS_STR if chars is None else str_chars(chars)
        e = list(self._chars())
        if l:
            while e and bool(in_set(e[0], cs)):
                e.pop(0)
        if r:
            while e and bool(in_set(e[-1], cs)):
                e.pop()
        return SymStr._mk(e)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            unsupported("str.split()")
        return [SymStr._mk(x._e) for x in SymBytes.split(self._b(), _Seq(str_chars(sep)), maxsplit)]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return self[:i], sep, self[i + len(sep):]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return self[:i], sep, self[i + len(sep):]

    def join(self, items):
        return str_join(self, items)

    def ljust(self, w, fill=" "):
        ch = self._chars()
        return SymStr._mk(list(ch) + [ord(fill)] * max(0, w - len(ch)))

    def rjust(self, w, fill=" "):
        ch = self._chars()
        return SymStr._mk([ord(fill)] * max(0, w - len(ch)) + list(ch))

    def zfill(self, w):
        ch = list(self._chars())
        if ch and bool(in_set(ch[0], (43, 45))):
            return SymStr._mk(ch[:1] + [48] * max(0, w - len(ch)) + ch[1:])
        return self.rjust(w, "0")

    def isdigit(self):
        ch = self._chars()
        ok = []
        for c in ch:
            if bounds(c)[1] > 127 and type(c) is SymInt and not bool(c < 128):
                if bool(in_set(c, (0xB2, 0xB3, 0xB9))):
                    unsupported("isdigit of superscripts")
                return False
            ok.append(and_all([c >= 48, c <= 57]))
        return len(ch) > 0 and bool(and_all(ok))

    isdecimal = isdigit
    isnumeric = isdigit

    def isprintable(self):
        for c in self._chars():
            if type(c) is int:
                if not chr(c).isprintable():
                    return False
            elif c.hi > 255:
                unsupported("isprintable of non-latin text")
            elif not bool(or_any([and_all([c >= 32, c <= 126]), and_all([c >= 161, c != 173])])):
                return False
        return True

    def isascii(self):
        return bool(and_all([c < 128 for c in self._chars()]))

    def _case(self, lo, hi, d):
        out = []
        for c in self._chars():
            if bounds(c)[1] > 127 and not bool(c < 128):
                unsupported("case mapping of non-ascii text")
            out.append(ite(and_all([c >= lo, c <= hi]), c + d, c))
        return SymStr._mk(out)

    def lower(self):
        return self._case(65, 90, 32)

    def upper(self):
        return self._case(97, 122, -32)

    casefold = lower

    def removeprefix(self, p):
        return self[len(p):] if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and bool(self.endswith(p)) else self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if all(type(x) is int for x in self._p) and hasattr(str, name):
            return getattr("".join(map(chr, self._p)), name)
        if hasattr(str, name):
            unsupported("str." + name)
        raise AttributeError("'str' object has no attribute %r" % name)


class _Seq(SymBytes):
    """code point sequence borrowing the bytes algorithms"""
    def __init__(self, e):
        self._e = list(e)

    def _new(self, el):
        r = _Seq.__new__(_Seq)
        r._e = list(el)
        return r


def _lazy_eq(a, b):
    """equality of part lists with identical structure, without resolving decimal texts; None if not applicable."""
    lazy = any(type(x) in (Dec, FStr) for x in a) or any(type(x) in (Dec, FStr) for x in b)
    if not lazy:
        return None
    if len(a) != len(b):
        return None
    conds = []
    for i, (x, y) in enumerate(zip(a, b)):
        tx, ty = type(x), type(y)
        if tx in (Dec, FStr) or ty in (Dec, FStr):
            if tx is not ty:
                return None
            # neighbours must be concrete non-digits so that the split is unambiguous
            for l in (a, b):
                for j in (i - 1, i + 1):
                    if 0 <= j < len(l) and not (type(l[j]) is int and not 48 <= l[j] <= 57 and l[j] not in (45, 46, 101)):
                        if not (type(l[j]) is int and l[j] == 46 and tx is Dec):
                            return None
            conds.append(x.x == y.x if tx is Dec else same_float(x.f, y.f))
        else:
            conds.append(x == y)
    return and_all(conds)


def str_join(sep, items):
    out = []
    for k, it in enumerate(items):
        if k:
            out.extend(str_parts(sep))
        if not isinstance(it, str):
            raise TypeError("sequence item %d: expected str instance, %s found" % (k, it.__class__.__name__))
        out.extend(str_parts(it))
    return SymStr._mk(out)


def to_str(x):
    t = type(x)
    if isinstance(x, SymStr):
        return SymStr._mk(x._p)
    if t is SymInt:
        return SymStr._mk([Dec(x)])
    if t is SymBool:
        return "True" if bool(x) else "False"
    if t is SymFloat:
        return SymStr._mk([FStr(x)])
    return expand(str(x))


def str_to_int(s, base=10):
    p = str_parts(s)
    if len(p) == 1 and type(p[0]) is Dec and base == 10:
        return p[0].x
    ch = str_chars(s)
    if not any_sym(ch):
        return int("".join(map(chr, ch)), base)
    if not ch:
        raise ValueError("invalid literal for int() with base %d: ''" % base)
    if base not in (10, 16):
        unsupported("int() of symbolic text in base %d" % base)
    neg = False
    if type(ch[0]) is int and ch[0] in (43, 45):
        neg = ch[0] == 45
        ch = ch[1:]
    digs = []
    conds = []
    for c in ch:
        if type(c) is int:
            if 48 <= c <= 57:
                digs.append(c - 48)
            elif base == 16 and chr(c) in "abcdefABCDEF":
                digs.append(int(chr(c), 16))
            elif chr(c) in "_ \t\n\r\x0b\x0c" or (base == 16 and chr(c) in "xX"):
                unsupported("int() of text with separators")
            else:
                raise ValueError("invalid literal for int()")
        elif c.prov and c.prov[0] == "nib":
            n = c.prov[1]
            if n.hi >= base:
                conds.append(n < base)
            digs.append(n)
        elif base == 16:
            digs.append(hexval(c))
        else:
            if not bool(and_all([c >= 48, c <= 57])):
                if bool(in_set(c, WS_STR + (95, 43, 45))) or bounds(c)[1] > 255:
                    unsupported("int() of text with separators")
                raise ValueError("invalid literal for int()")
            digs.append(mkint(to_w(c - 48, 4), 0, 9))
    if conds and not bool(and_all(conds)):
        raise ValueError("invalid literal for int() with base %d" % base)
    digs = [mkint(d.z, d.lo, min(d.hi, base - 1)) if type(d) is SymInt and d.hi >= base and base == 10 else d for d in digs]
    # mkint keeps the 4-bit term; hi is tightened because the range was just established on this path
    v = 0
    for d in digs:
        v = v * base + d
    if type(v) is SymInt:
        v = SymInt(v.z, v.lo, v.hi, ("digits", tuple(digs)) if base == 10 and not neg else None)
    return -v if neg else v


# ------------------------------------------------------------------ float
class SymFloat:
    __slots__ = ("fmt", "le", "ops")

    def __init__(self, fmt, le, ops=()):
        self.fmt, self.le, self.ops = fmt, tuple(le), ops

    @property
    def __class__(self):
        return float

    def bits(self):
        return int_from_elems(list(self.le))

    def _f(self):
        b = self.bits()
        if self.fmt == "f":
            return b >> 31, (b >> 23) & 0xFF, b & 0x7FFFFF, 255
        return b >> 63, (b >> 52) & 0x7FF, b & ((1 << 52) - 1), 2047

    def is_nan(self):
        s, e, m, mx = self._f()
        return and_all([e == mx, not_(m == 0)])

    def is_inf(self):
        s, e, m, mx = self._f()
        return and_all([e == mx, m == 0])

    def is_zero(self):
        if any(o[0] != "float" for o in self.ops):
            unsupported("comparison of a computed float with zero")
        s, e, m, mx = self._f()
        return and_all([e == 0, m == 0])

    def __bool__(self):
        return not bool(self.is_zero())

    def __eq__(self, o):
        if type(o) is SymFloat:
            if o.fmt == self.fmt and o.ops == self.ops:
                r = and_all([seq_eq(self.le, o.le), not_(self.is_nan())])
                if not self.ops:
                    r = or_any([r, and_all([self.is_zero(), o.is_zero()])])
                return r
            unsupported("comparison of differently computed floats")
        if type(o) is int:
            o = float(o)
        if type(o) is float:
            import math
            if o != o:
                return False
            if math.isinf(o):
                s, e, m, mx = self._f()
                return and_all([e == mx, m == 0, s == (1 if o < 0 else 0)])
            if self.ops:
                unsupported("comparison of a computed float")
            if o == 0:
                return self.is_zero()
            try:
                raw = _struct.pack("<" + self.fmt, o)
            except OverflowError:
                return False
            if _struct.unpack("<" + self.fmt, raw)[0] != o:
                return False
            return seq_eq(self.le, list(raw))
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        unsupported("hash of a symbolic float")

    def __round__(self, n=None):
        if n is None:
            unsupported("round to integer")
        return SymFloat(self.fmt, self.le, self.ops + (("round", n),))

    def __float__(self):
        unsupported("native float() of a symbolic float")

    def _u(self, *a):
        unsupported("arithmetic on a symbolic float")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = _u
    __lt__ = __le__ = __gt__ = __ge__ = __int__ = __floor__ = __ceil__ = __trunc__ = _u

    def is_integer(self):
        unsupported("float.is_integer")

    def __repr__(self):
        return marker(self)

    __str__ = __repr__

    def __format__(self, spec):
        return marker(self)


def same_float(a, b):
    if type(a) is SymFloat and type(b) is SymFloat:
        if a.fmt == b.fmt and a.ops == b.ops:
            return or_any([seq_eq(a.le, b.le), and_all([a.is_nan(), b.is_nan()])])
        return False
    return a == b


def int_from_elems(el, byteorder="little", signed=False):
    el = list(el)
    if byteorder == "big":
        el = el[::-1]
    elif byteorder != "little":
        raise ValueError("byteorder must be either 'little' or 'big'")
    if not any_sym(el):
        return int.from_bytes(bytes(el), "little", signed=signed)
    while not signed and len(el) > 1 and type(el[-1]) is int and el[-1] == 0:
        el.pop()
    if len(el) == 1 and not signed:
        return el[0]
    z = z3.Concat(*[to_w(x, 8) for x in reversed(el)]) if len(el) > 1 else to_w(el[0], 8)
    n = 8 * len(el)
    if signed:
        return mkint(z, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    lo = sum(bounds(x)[0] << (8 * i) for i, x in enumerate(el))
    hi = sum(bounds(x)[1] << (8 * i) for i, x in enumerate(el))
    return mkint(z, lo, hi, ("le", tuple(el)))


# ------------------------------------------------------------------ datetime
_DAYS = (0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def leap(y):
    if type(y) is int:
        import calendar
        return calendar.isleap(y)
    return or_any([and_all([y % 4 == 0, not_(y % 100 == 0)]), y % 400 == 0])


def days_in_month(y, m):
    r = 31
    for k in (4, 6, 9, 11):
        r = ite(m == k, 30, r)
    return ite(m == 2, ite(leap(y), 29, 28), r)


def make_datetime(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, **kw):
    args = [year, month, day, hour, minute, second, microsecond]
    if not any(type(a) is SymInt for a in args) or month is None or day is None:
        return _dt.datetime(year, month, day, hour, minute, second, microsecond, tzinfo, **kw)
    if tzinfo is not None or kw:
        unsupported("timezone")
    y, mo, d, h, mi, s, us = args
    for v, lo, hi, n in ((y, 1, 9999, "year"), (mo, 1, 12, "month")):
        if not bool(and_all([v >= lo, v <= hi])):
            raise ValueError("%s is out of range" % n)
    if not bool(and_all([d >= 1, d <= days_in_month(y, mo)])):
        raise ValueError("day is out of range for month")
    for v, hi, n in ((h, 23, "hour"), (mi, 59, "minute"), (s, 59, "second"), (us, 999999, "microsecond")):
        if not bool(and_all([v >= 0, v <= hi])):
            raise ValueError("%s must be in 0..%d" % (n, hi))
    return SymDatetime(tuple(tight(v, lo, hi) for v, lo, hi in zip(args, (1, 1, 1, 0, 0, 0, 0), (9999, 12, 31, 23, 59, 59, 999999))))


def tight(v, lo, hi):
    """narrow the interval of v to a range already established on this path"""
    if type(v) is SymInt and (v.lo < lo or v.hi > hi):
        return mkint(to_w(v, need(max(v.lo, lo), min(v.hi, hi))), max(v.lo, lo), min(v.hi, hi))
    return v


class SymDatetime:
    """f: (year, month, day, hour, minute, second, microsecond) or None; off: (base datetime, seconds) or None"""
    __slots__ = ("f", "off")

    def __init__(self, f=None, off=None):
        self.f, self.off = f, off

    @property
    def __class__(self):
        return _dt.datetime

    def _field(self, i):
        if self.f is None:
            unsupported("calendar fields of a computed datetime")
        return self.f[i]

    year = property(lambda s: s._field(0))
    month = property(lambda s: s._field(1))
    day = property(lambda s: s._field(2))
    hour = property(lambda s: s._field(3))
    minute = property(lambda s: s._field(4))
    second = property(lambda s: s._field(5))
    microsecond = property(lambda s: s._field(6))
    tzinfo = property(lambda s: None)
    fold = property(lambda s: 0)

    def seconds(self):
        """seconds since 1970-01-01 (microseconds must be zero)"""
        ep = _dt.datetime(1970, 1, 1)
        if self.off is not None:
            b, s = self.off
            d = b - ep
            return d.days * 86400 + d.seconds + s
        y, mo, d, h, mi, s, us = self.f
        if type(us) is not int or us:
            unsupported("microseconds")
        yy = y - 1
        days = yy * 365 + yy // 4 - yy // 100 + yy // 400
        cum = 0
        acc = 0
        for k in range(1, 13):
            acc = ite(mo == k, cum, acc)
            cum += _DAYS[k]
        days = days + acc + ite(and_all([leap(y), mo > 2]), 1, 0) + d
        return (days - 719163) * 86400 + h * 3600 + mi * 60 + s

    def __eq__(self, o):
        if type(o) is SymDatetime:
            if self.f is not None and o.f is not None:
                return and_all([a == b for a, b in zip(self.f, o.f)])
            if self.off is not None and o.off is not None and self.off[0] == o.off[0]:
                return self.off[1] == o.off[1]
            return self.seconds() == o.seconds()
        if isinstance(o, _dt.datetime):
            if o.tzinfo is not None:
                return False
            if self.f is not None:
                return and_all([a == b for a, b in zip(self.f, (o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond))])
            return o.microsecond == 0 and self.seconds() == int((o - _dt.datetime(1970, 1, 1)).total_seconds())
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def _secs(self, o):
        if type(o) is SymDatetime:
            return o.seconds()
        d = o - _dt.datetime(1970, 1, 1)
        if d.microseconds:
            unsupported("microseconds")
        return d.days * 86400 + d.seconds

    def __lt__(self, o):
        return self.seconds() < self._secs(o)

    def __le__(self, o):
        return self.seconds() <= self._secs(o)

    def __gt__(self, o):
        return self.seconds() > self._secs(o)

    def __ge__(self, o):
        return self.seconds() >= self._secs(o)

    def __hash__(self):
        unsupported("hash of a symbolic datetime")

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            return self + (-o if type(o) is not SymTimedelta else SymTimedelta(-o.s))
        return SymTimedelta(self.seconds() - self._secs(o))

    def __rsub__(self, o):
        return SymTimedelta(self._secs(o) - self.seconds())

    def __add__(self, o):
        s = o.s if type(o) is SymTimedelta else o.days * 86400 + o.seconds
        if type(o) is not SymTimedelta and o.microseconds:
            unsupported("microseconds")
        if self.off is not None:
            return SymDatetime(None, (self.off[0], self.off[1] + s))
        return SymDatetime(None, (_dt.datetime(1970, 1, 1), self.seconds() + s))

    __radd__ = __add__

    def isoformat(self, sep="T", timespec="auto"):
        return SymStr._mk([Dec(SymInt(z3.BitVec("iso!", 8), 0, 255))]) if self.f is None else self.strftime("%Y-%m-%d" + sep + "%H:%M:%S")

    def strftime(self, fmt):
        if self.f is None:
            unsupported("strftime of a computed datetime")
        out, i = [], 0
        y, mo, d, h, mi, s, us = self.f
        m = {"Y": (y, 4), "m": (mo, 2), "d": (d, 2), "H": (h, 2), "M": (mi, 2), "S": (s, 2), "y": (y % 100, 2)}
        while i < len(fmt):
            if fmt[i] == "%":
                i += 1
                if fmt[i] == "%":
                    out.append(37)
                elif fmt[i] in m:
                    v, n = m[fmt[i]]
                    out.extend(digchar((v // 10 ** k) % 10) for k in range(n - 1, -1, -1))
                else:
                    unsupported("strftime %" + fmt[i])
            else:
                out.append(ord(fmt[i]))
            i += 1
        return SymStr._mk(out)

    def replace(self, **kw):
        names = ("year", "month", "day", "hour", "minute", "second", "microsecond")
        f = list(self.f if self.f is not None else unsupported("replace on computed datetime"))
        if kw.pop("tzinfo", None) is not None:
            unsupported("timezone")
        for k, v in kw.items():
            f[names.index(k)] = v
        return make_datetime(*f)

    def timetuple(self):
        return tuple(self.f[:6]) + (0, 0, -1)

    def utcoffset(self):
        return None

    def date(self):
        unsupported("datetime.date")

    def timestamp(self):
        unsupported("datetime.timestamp")

    def __repr__(self):
        return marker(self)

    __str__ = __repr__

    def __format__(self, s):
        return marker(self)


class SymTimedelta:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    @property
    def __class__(self):
        return _dt.timedelta

    def total_seconds(self):
        return self.s

    def __eq__(self, o):
        if type(o) is SymTimedelta:
            return self.s == o.s
        if isinstance(o, _dt.timedelta):
            return o.microseconds == 0 and self.s == o.days * 86400 + o.seconds
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        unsupported("hash of timedelta")

    @property
    def days(self):
        return self.s // 86400

    @property
    def seconds(self):
        return self.s % 86400

    @property
    def microseconds(self):
        return 0

    def __add__(self, o):
        if isinstance(o, _dt.datetime):
            return make_dt_offset(o, self.s)
        return SymTimedelta(self.s + (o.s if type(o) is SymTimedelta else o.days * 86400 + o.seconds))

    def __radd__(self, o):
        return self.__add__(o)

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return make_dt_offset(o, -self.s)
        return NotImplemented

    def __neg__(self):
        return SymTimedelta(-self.s)

    def __repr__(self):
        return marker(self.s)


def make_dt_offset(base, s):
    if type(base) is SymDatetime:
        return base + SymTimedelta(s)
    # datetime arithmetic raises OverflowError outside years 1..9999
    lo, hi = bounds(s)
    try:
        base + _dt.timedelta(seconds=lo)
        base + _dt.timedelta(seconds=hi)
    except OverflowError:
        unsupported("datetime range")
    return SymDatetime(None, (base, s))


SYM_TYPES = (SymInt, SymBool, SymFloat, SymDatetime, SymTimedelta)


def is_sym(x):
    t = type(x)
    if t in SYM_TYPES:
        return True
    return issubclass(t, (SymBytes, SymStr))
