"""Runtime of the rewritten code: calls, subscripts, membership etc. are routed here so that builtins understand symbolic values."""
import array
import binascii
import builtins
import codecs
import datetime as _dt
import enum
import functools
import hmac
import io
import ipaddress
import itertools
import math
import operator
import os
import random
import re
import socket
import struct as _struct
import sys
import types
import z3

from . import core, symre, values as V
from .core import Control
from .values import (SymBool, SymByteArray, SymBytes, SymDatetime, SymFloat, SymInt, SymStr, SymTimedelta, and_all, elems, ite, is_sym,
                     mkbool, not_, num, or_any, unsupported)

Control = Control
slice_ = slice
bytearray_ = SymByteArray
_ENGINE_DIR = os.path.dirname(os.path.abspath(__file__))
FUNCS = set()


def enter(name):
    FUNCS.add(name)


# ------------------------------------------------------------------ helpers
def has_sym(args, kw=None):
    for a in args:
        t = type(a)
        if t in V.SYM_TYPES or (t.__module__ and issubclass(t, (SymBytes, SymStr))):
            return True
        if t is list or t is tuple:
            if has_sym(a):
                return True
        elif t is str and V.MARK_A in a:
            return True
    if kw:
        return has_sym(kw.values())
    return False


def base(b):
    """base classes of classes defined in rewritten code"""
    if b is bytes:
        return SymBytes
    if b is bytearray:
        return SymByteArray
    if b is str:
        return SymStr
    return b


# ------------------------------------------------------------------ models of builtins
MODELS = {}


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[id(f)] = (f, g)
        return g
    return deco


def symbytes_or_native(el):
    return SymBytes._mk(el)


@model(bytes)
def m_bytes(*a, **k):
    if not a and not k:
        return b""
    if k:
        a = a + tuple(k.values())
    if type(a[0]) is str:
        if V.MARK_A not in a[0]:
            return bytes(*a)
    return SymBytes._mk(V._make_elems(*a))


@model(bytearray)
def m_bytearray(*a, **k):
    return SymByteArray(*a, **k)


@model(int)
def m_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    b = a[1] if len(a) > 1 else k.get("base", 10)
    if V.is_num(x) and len(a) == 1 and not k:
        return num(x)
    if isinstance(x, str) and (isinstance(x, SymStr) or V.MARK_A in x):
        return V.str_to_int(x, b)
    if isinstance(x, SymBytes):
        return V.str_to_int(SymStr._mk(x._e), b)
    if type(x) is SymFloat:
        return x.__int__()
    return int(*a, **k)


@model(bool)
def m_bool(*a):
    if a and type(a[0]) in (SymBool, SymInt, SymFloat):
        return mkbool(V.truth(a[0]))
    return bool(*a)


@model(str)
def m_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if is_sym(x) and not isinstance(x, SymBytes):
            return V.to_str(x)
        if type(x) is str:
            return x
        if type(x) is SymAddress:
            return x.exploded
        return V.expand(str(x))
    if a and isinstance(a[0], SymBytes):
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


@model(repr)
def m_repr(x):
    if is_sym(x):
        if type(x).__repr__ in (SymBytes.__repr__, SymStr.__repr__):
            return SymStr._mk(V.repr_parts(x))
        if type(x) is SymInt:
            return V.to_str(x)
    return V.expand(repr(x))


@model(format)
def m_format(x, spec=""):
    if is_sym(x):
        return SymStr._mk(fmt_parts(x, spec))
    return V.expand(format(x, spec))


@model(ascii)
def m_ascii(x):
    return m_repr(x)


@model(float)
def m_float(*a):
    if a:
        x = a[0]
        if type(x) is SymFloat:
            return x
        if isinstance(x, SymStr):
            p = x._p
            if len(p) == 1 and type(p[0]) is V.FStr:
                return p[0].f
            unsupported("float() of symbolic text")
        if type(x) is SymInt:
            unsupported("float() of a symbolic integer")
    return float(*a)


@model(len)
def m_len(x):
    return len(x)


@model(hash)
def m_hash(x):
    return hash(x)


@model(type)
def m_type(*a, **k):
    if len(a) == 1 and not k:
        if is_sym(a[0]):
            t = type(a[0])
            if t is SymByteArray:
                return SymByteArray
            if t in (SymBytes, SymStr) or t in V.SYM_TYPES:
                return a[0].__class__
            return t
        return type(a[0])
    return type(*a, **k)


def _fix_cls(c):
    if c is SymByteArray:
        return (SymByteArray, bytearray)
    return c


@model(isinstance)
def m_isinstance(x, c):
    if isinstance(c, tuple):
        return any(m_isinstance(x, i) for i in c)
    if c is bytearray or c is SymByteArray:
        return type(x) is bytearray or isinstance(x, SymByteArray)
    if c is bytes and isinstance(x, SymByteArray):
        return False
    if c is bytes and isinstance(x, SymBytes):
        return True
    if is_sym(x):
        if c is collections_abc.Hashable or c is collections_abc.Sequence or c is collections_abc.Iterable:
            return isinstance(x.__class__(), c) if x.__class__ is not _dt.datetime else c is collections_abc.Hashable
    return isinstance(x, c)


import collections.abc as collections_abc  # noqa: E402


@model(issubclass)
def m_issubclass(c, b):
    if c is SymByteArray:
        c = bytearray
    if b is SymByteArray:
        b = bytearray
    if isinstance(b, tuple):
        b = tuple(bytearray if i is SymByteArray else i for i in b)
    return issubclass(c, b)


def _minmax(args, k, less):
    items = list(args[0]) if len(args) == 1 else list(args)
    if k or not has_sym(items):
        return None, False
    if all(V.is_num(i) for i in items):
        r = items[0]
        for i in items[1:]:
            c = (i < r) if less else (i > r)
            r = ite(c, i, r)
        return r, True
    return None, False


@model(min)
def m_min(*a, **k):
    if len(a) == 1 and not isinstance(a[0], (list, tuple)):
        a = (list(a[0]),)
    r, ok = _minmax(a, k, True)
    return r if ok else min(*a, **k)


@model(max)
def m_max(*a, **k):
    if len(a) == 1 and not isinstance(a[0], (list, tuple)):
        a = (list(a[0]),)
    r, ok = _minmax(a, k, False)
    return r if ok else max(*a, **k)


@model(range)
def m_range(*a):
    if not has_sym(a):
        return range(*a)
    a = [num(x) if num(x) is not None else x for x in a]
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if type(step) is SymInt:
        step = step.__index__()
    if step == 0:
        raise ValueError("range() arg 3 must not be zero")
    return SymRange(start, stop, step)


class SymRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        i = self.a
        while bool(i < self.b if self.s > 0 else i > self.b):
            yield i
            i = i + self.s

    def __len__(self):
        return len(list(self))

    def __reversed__(self):
        return reversed(list(self))

    def __contains__(self, x):
        if self.s != 1:
            return x in list(self)
        return bool(and_all([x >= self.a, x < self.b]))

    def __getitem__(self, i):
        return list(self)[i]


@model(sum)
def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


@model(any)
def m_any(it):
    acc = []
    for x in it:
        if type(x) is SymBool or type(x) is SymInt:
            acc.append(mkbool(V.truth(x)))
        elif x:
            return or_any(acc + [True])
    return or_any(acc)


@model(all)
def m_all(it):
    acc = []
    for x in it:
        if type(x) is SymBool or type(x) is SymInt:
            # stop early only when decided: the elements may guard each other
            if not bool(x):
                return False
        elif not x:
            return False
    return and_all(acc)


@model(map)
def m_map(f, *its):
    for args in zip(*its):
        yield call(f, *args)


@model(filter)
def m_filter(f, it):
    for x in it:
        if (bool(x) if f is None else bool(call(f, x))):
            yield x


@model(functools.reduce)
def m_reduce(f, it, *init):
    it = iter(it)
    r = init[0] if init else next(it)
    for x in it:
        r = call(f, r, x)
    return r


class Cached:
    """functools.lru_cache: a hit needs arguments that are the same on this path; the cache is empty at the start of a path"""

    def __init__(self, f):
        self.f = f
        functools.update_wrapper(self, f)

    def __get__(self, obj, owner=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *a, **k):
        tab = core.CUR.tables.setdefault("lru", []) if core.CUR is not None else []
        key = (a, tuple(sorted(k.items())))
        for f, old, r in tab:
            if f is self.f and same_args(old, key):
                return r
        r = call(self.f, *a, **k)
        tab.append((self.f, key, r))
        return r

    def cache_clear(self):
        if core.CUR is not None:
            t = core.CUR.tables.get("lru")
            if t:
                t[:] = [x for x in t if x[0] is not self.f]


def same_args(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_args(x, y) for x, y in zip(a, b))
    if isinstance(a, (bytearray, list, dict, set)):
        raise TypeError("unhashable type: '%s'" % type(a).__name__)
    try:
        return bool(a == b)
    except TypeError:
        return False


@model(functools.lru_cache)
def m_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return Cached(maxsize)
    return Cached


def deco(d):
    ent = MODELS.get(id(d))
    return ent[1] if ent is not None and ent[0] is d and d in (functools.lru_cache, functools.cache) else d


@model(functools.cache)
def m_cache(f):
    return Cached(f)


@model(sorted)
def m_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=None if key is None else (lambda x: call(key, x)), reverse=reverse)


@model(ord)
def m_ord(x):
    if isinstance(x, SymStr):
        c = x._chars()
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return c[0]
    if isinstance(x, SymBytes):
        if len(x._e) != 1:
            raise TypeError("ord() expected a character")
        return x._e[0]
    return ord(x)


@model(chr)
def m_chr(x):
    if type(x) is SymInt:
        if not bool(and_all([x >= 0, x < 0x110000])):
            raise ValueError("chr() arg not in range(0x110000)")
        return SymStr._mk([x])
    return chr(x)


@model(hex)
def m_hex(x):
    if type(x) is SymInt:
        return SymStr._mk([48, 120] + V.format_int_parts(x, "x"))
    return hex(x)


@model(bin)
def m_bin(x):
    if type(x) is SymInt:
        return SymStr._mk([48, 98] + V.format_int_parts(x, "b"))
    return bin(x)


@model(round)
def m_round(x, *a, **k):
    if is_sym(x):
        return x.__round__(*a, **k)
    return round(x, *a, **k)


@model(divmod)
def m_divmod(a, b):
    return divmod(a, b)


@model(getattr)
def m_getattr(o, name, *d):
    return getattr(o, name, *d)


@model(memoryview)
def m_memoryview(x):
    if isinstance(x, SymBytes):
        return x
    return memoryview(x)


@model(hmac.compare_digest)
def m_compare_digest(a, b):
    if has_sym((a, b)):
        return a == b
    return hmac.compare_digest(a, b)


@model(binascii.hexlify, binascii.b2a_hex)
def m_hexlify(data, *a):
    if not a and isinstance(data, SymBytes):
        return data.hex().encode("ascii")
    return binascii.hexlify(data, *a)


@model(binascii.unhexlify, binascii.a2b_hex)
def m_unhexlify(text):
    if isinstance(text, (SymBytes, SymStr)):
        s = text if isinstance(text, str) else text.decode("latin-1")
        if any(type(c) is int and c in (32, 9, 10, 13, 11, 12) for c in V.str_chars(s)):
            raise binascii.Error("Non-hexadecimal digit found")
        try:
            return SymBytes._mk(V.fromhex_elems(s))
        except ValueError as e:
            raise binascii.Error(str(e))
    return binascii.unhexlify(text)


@model(codecs.decode)
def m_codecs_decode(x, encoding="utf-8", errors="strict"):
    if isinstance(x, (SymBytes, SymStr)):
        if encoding.lower() in ("hex", "hex_codec"):
            return m_unhexlify(x)
        return x.decode(encoding, errors)
    return codecs.decode(x, encoding, errors)


@model(codecs.encode)
def m_codecs_encode(x, encoding="utf-8", errors="strict"):
    if isinstance(x, (SymBytes, SymStr)):
        if encoding.lower() in ("hex", "hex_codec"):
            return m_hexlify(x)
        return x.encode(encoding, errors)
    return codecs.encode(x, encoding, errors)


@model(binascii.crc_hqx)
def m_crc_hqx(data, crc):
    if has_sym((data, crc)):
        crc = crc & 0xFFFF
        for b in V.elems(data):
            crc = crc ^ (b << 8)
            for _ in range(8):
                crc = V.ite((crc & 0x8000) != 0, ((crc << 1) ^ 0x1021) & 0xFFFF, (crc << 1) & 0xFFFF)
        return crc
    return binascii.crc_hqx(data, crc)


class SymStringIO:
    """io.StringIO that can hold symbolic text; written at the end only"""

    def __init__(self, initial="", newline="\n"):
        self._x, self.closed = [initial] if len(initial) else [], False

    def write(self, x):
        self._x.append(x)
        return m_len(x)

    def getvalue(self):
        return V.str_join("", self._x) if any(isinstance(x, SymStr) for x in self._x) else "".join(self._x)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        unsupported("StringIO." + name)


@model(io.StringIO)
def m_stringio(*a, **k):
    return SymStringIO(*a, **k)


@model(array.array)
def m_array(code, src=()):
    if has_sym((src,) if not isinstance(src, (list, tuple)) else src):
        if code == "B":
            return SymByteArray(src)
        unsupported("array of symbolic values")
    return array.array(code, src)


@model(socket.inet_ntoa)
def m_inet_ntoa(x):
    if isinstance(x, SymBytes):
        if len(x) != 4:
            raise OSError("packed IP wrong length")
        return V.str_join(".", [V.to_str(b) for b in x._e])
    return socket.inet_ntoa(x)


class SymAddress:
    """an IPv4Address of symbolic bytes"""

    def __init__(self, el):
        self.packed = SymBytes._mk(el)

    @property
    def __class__(self):
        return ipaddress.IPv4Address

    @property
    def exploded(self):
        return m_inet_ntoa(self.packed)

    compressed = exploded

    def __eq__(self, o):
        return isinstance(o, ipaddress.IPv4Address) and self.packed == o.packed

    __hash__ = None


@model(ipaddress.IPv4Address, ipaddress.ip_address)
def m_ipv4(x):
    if isinstance(x, SymBytes):
        if len(x) != 4:
            raise ipaddress.AddressValueError("%d bytes are no address" % len(x))
        return SymAddress(x._e)
    if is_sym(x):
        unsupported("IPv4Address of symbolic text or number")
    return ipaddress.IPv4Address(x)


class SymBytesIO:
    """io.BytesIO that can hold symbolic bytes"""

    def __init__(self, initial=b""):
        self._b, self._p, self.closed = list(V.elems(initial)), 0, False

    def _size(self, n):
        return len(self._b) if n is None or n < 0 else self._p + n

    def read(self, n=-1):
        r = self._b[self._p:self._size(n)]
        self._p += len(r)
        return SymBytes._mk(r)

    read1 = read

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)

    def write(self, data):
        el = V.elems(data)
        if self._p > len(self._b):
            self._b += [0] * (self._p - len(self._b))
        self._b[self._p:self._p + len(el)] = el
        self._p += len(el)
        return len(el)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def getvalue(self):
        return SymBytes._mk(list(self._b))

    getbuffer = getvalue

    def tell(self):
        return self._p

    def seek(self, off, whence=0):
        self._p = max(0, off + (0 if whence == 0 else self._p if whence == 1 else len(self._b)))
        return self._p

    def truncate(self, n=None):
        n = self._p if n is None else n
        del self._b[n:]
        return n

    def readable(self):
        return True

    writable = seekable = readable

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        unsupported("BytesIO." + name)


@model(io.BytesIO)
def m_bytesio(initial=b""):
    return SymBytesIO(b"" if initial is None else initial)


def _re_model(name):
    native = getattr(re, name)

    def f(*a, **k):
        if has_sym(a, k) or name in ("sub", "subn") and any(isinstance(x, (SymBytes, SymStr)) for x in list(a) + list(k.values())):
            return symre.function(name, a, k)
        return native(*a, **k)
    MODELS[id(native)] = (native, f)


for _n in symre.FUNCS:
    _re_model(_n)


@model(math.isnan)
def m_isnan(x):
    if type(x) is SymFloat:
        return x.is_nan()
    return False if type(x) is SymInt else math.isnan(x)


@model(math.isinf)
def m_isinf(x):
    if type(x) is SymFloat:
        return x.is_inf()
    return False if type(x) is SymInt else math.isinf(x)


@model(math.isfinite)
def m_isfinite(x):
    if type(x) is SymFloat:
        return not_(or_any([x.is_nan(), x.is_inf()]))
    return True if type(x) is SymInt else math.isfinite(x)


@model(_dt.datetime)
def m_datetime(*a, **k):
    if has_sym(a, k):
        return V.make_datetime(*a, **k)
    return _dt.datetime(*a, **k)


@model(_dt.timedelta)
def m_timedelta(*a, **k):
    if not has_sym(a, k):
        return _dt.timedelta(*a, **k)
    names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
    d = dict(zip(names, a))
    d.update(k)
    mul = dict(days=86400, seconds=1, minutes=60, hours=3600, weeks=604800)
    s = 0
    for n, v in d.items():
        if n not in mul:
            if type(v) is int and v == 0:
                continue
            unsupported("timedelta " + n)
        s = s + v * mul[n]
    return SymTimedelta(s)


@model(sys._getframe)
def m_getframe(depth=0):
    f = sys._getframe(1)
    n = depth
    while f is not None:
        if not f.f_code.co_filename.startswith(_ENGINE_DIR):
            if n == 0:
                return f
            n -= 1
        f = f.f_back
    raise ValueError("call stack is not deep enough")


# ------------------------------------------------------------------ struct
_SIZES = dict(c=1, b=1, B=1, h=2, H=2, i=4, I=4, l=4, L=4, q=8, Q=8, f=4, d=8, e=2, s=1, x=1)
_SIZES["?"] = 1


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "@"
    f = fmt
    if f and f[0] in "@=<>!":
        order, f = f[0], f[1:]
    items, i, n = [], 0, 0
    while i < len(f):
        if f[i].isspace():
            i += 1
            continue
        cnt = ""
        while i < len(f) and f[i].isdigit():
            cnt += f[i]
            i += 1
        c = f[i]
        i += 1
        if c not in _SIZES:
            unsupported("struct code " + c)
        k = int(cnt) if cnt else 1
        if c == "s":
            items.append(("s", k))
        else:
            items.extend([(c, _SIZES[c])] * k)
    size = sum(s for _, s in items)
    if order == "@" and size != _struct.calcsize(fmt):
        unsupported("native struct alignment")
    return (sys.byteorder if order in "@=" else "little" if order == "<" else "big"), items, size


def struct_unpack(fmt, data, offset=None):
    native = fmt if isinstance(fmt, str) else fmt.decode()
    el = list(elems(data))
    bo, items, size = parse_fmt(fmt)
    if offset is None:
        if len(el) != size:
            raise _struct.error("unpack requires a buffer of %d bytes" % size)
        pos = 0
    else:
        if type(offset) is SymInt:
            offset = offset.__index__()
        pos = offset
        if pos < 0:
            pos += len(el)
        if pos < 0 or len(el) - pos < size:
            raise _struct.error("unpack_from requires a buffer of at least %d bytes" % size)
    if not V.any_sym(el):
        return _struct.unpack_from(native, bytes(el), pos)
    out = []
    for c, n in items:
        part = el[pos:pos + n]
        pos += n
        if c == "x":
            continue
        if c == "s" or c == "c":
            out.append(SymBytes._mk(part))
        elif c == "?":
            out.append(mkbool(V.truth(part[0])) if type(part[0]) is SymInt else bool(part[0]))
        elif c in "fd":
            le = part if bo == "little" else part[::-1]
            out.append(SymFloat(c, le) if V.any_sym(le) else _struct.unpack("<" + c, bytes(le))[0])
        elif c == "e":
            unsupported("half floats")
        else:
            out.append(V.int_from_elems(part, bo, signed=c.islower()))
    return tuple(out)


def struct_pack(fmt, *args):
    if not has_sym(args):
        return _struct.pack(fmt, *[bytes(a._e) if isinstance(a, SymBytes) else a for a in args])
    bo, items, size = parse_fmt(fmt)
    out = []
    args = list(args)
    if len(args) != len([1 for c, _ in items if c != "x"]):
        raise _struct.error("pack expected a different number of items")
    for c, n in items:
        if c == "x":
            out.extend([0] * n)
            continue
        a = args.pop(0)
        if c in "sc":
            e = list(elems(a))
            if c == "c" and len(e) != 1:
                raise _struct.error("char format requires a bytes object of length 1")
            out.extend((e + [0] * n)[:n])
        elif c == "?":
            out.append(ite(mkbool(V.truth(a)), 1, 0))
        elif c in "fd":
            if type(a) is SymFloat:
                if a.ops or (a.fmt != c):
                    unsupported("packing a computed float")
                out.extend(a.le if bo == "little" else a.le[::-1])
            elif type(a) is SymInt:
                unsupported("packing an integer as float")
            else:
                out.extend(_struct.pack(("<" if bo == "little" else ">") + c, a))
        else:
            a = num(a)
            if a is None:
                raise _struct.error("required argument is not an integer")
            try:
                b = to_bytes(a, n, bo, signed=c.islower())
            except OverflowError:
                raise _struct.error("argument out of range")
            out.extend(elems(b))
    return SymBytes._mk(out)


def to_bytes(x, *a, **k):
    if type(x) is SymInt:
        return x.to_bytes(*[i if not isinstance(i, SymStr) else str(i) for i in a], **k)
    a = tuple(i.__index__() if type(i) is SymInt else i for i in a)
    k = {n: (i.__index__() if type(i) is SymInt else i) for n, i in k.items()}
    return x.to_bytes(*a, **k)


@model(_struct.unpack)
def m_unpack(fmt, data):
    if isinstance(data, SymBytes):
        return struct_unpack(fmt, data)
    return _struct.unpack(fmt, data)


@model(_struct.unpack_from)
def m_unpack_from(fmt, buffer, offset=0):
    if isinstance(buffer, SymBytes) or type(offset) is SymInt:
        return struct_unpack(fmt, buffer, offset)
    return _struct.unpack_from(fmt, buffer, offset)


@model(_struct.iter_unpack)
def m_iter_unpack(fmt, data):
    n = _struct.calcsize(fmt)
    if len(data) % n:
        raise _struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % n)
    for i in range(0, len(data), n):
        yield m_unpack(fmt, data[i:i + n])


@model(_struct.pack)
def m_pack(fmt, *a):
    return struct_pack(fmt, *a)


# ------------------------------------------------------------------ random
def fixed_draw(n, lo):
    """a fixed value where the harness asked for them (see SymE.fixed_draws)"""
    t = core.CUR.tables
    if "fixed_draws" not in t:
        return None
    t["fixed_draws"] += 1
    return lo + (37 * t["fixed_draws"] + 40) % n


def draw_int(lo, hi, kind):
    e = core.CUR
    if num(lo) is None or num(hi) is None:
        return random.randint(lo, hi)
    if type(lo) is SymInt:
        lo = lo.__index__()
    if type(hi) is SymInt:
        hi = hi.__index__()
    if hi < lo:
        raise ValueError("empty range for randrange()")
    name = e.uniq("draw")
    v = fixed_draw(hi - lo + 1, lo)
    if v is None:
        v = V.new_int(name, lo, hi)
    e.inputs.append((name, "draw", (kind, v)))
    return v


@model(random.randint)
def m_randint(a, b):
    return draw_int(a, b, "int")


@model(random.randrange)
def m_randrange(a, b=None, step=1):
    if step != 1:
        unsupported("randrange step")
    return draw_int(0, a - 1, "int") if b is None else draw_int(a, b - 1, "int")


def pick(seq):
    n = len(seq)
    if n == 0:
        raise IndexError("Cannot choose from an empty sequence")
    e = core.CUR
    name = e.uniq("draw")
    i = fixed_draw(n, 0)
    if i is None:
        i = V.new_int(name, 0, n - 1)
    e.inputs.append((name, "draw", ("pick", i)))
    if isinstance(seq, str):
        t = V.str_chars(seq)
        return SymStr._mk([V.table_lookup(t, i) if type(i) is SymInt else t[i]])
    return getitem(seq, i)


@model(random.choice)
def m_choice(seq):
    return pick(seq)


@model(random.choices)
def m_choices(population, weights=None, *, cum_weights=None, k=1):
    if weights is not None or cum_weights is not None:
        unsupported("weighted choices")
    return [pick(population) for _ in range(k)]


def draw_bytes(n):
    return SymBytes._mk([draw_int(0, 255, "int") for _ in range(n)])


@model(os.urandom)
def m_urandom(n):
    return draw_bytes(n)


@model(random.randbytes)
def m_randbytes(n):
    return draw_bytes(n)


@model(random.getrandbits)
def m_getrandbits(k):
    return draw_int(0, (1 << k) - 1, "int")


@model(random.sample, random.shuffle, random.random, random.uniform)
def m_random_other(*a, **k):
    unsupported("random function")


# ------------------------------------------------------------------ fstr / formatting
def fmt_parts(x, spec):
    if isinstance(spec, SymStr):
        unsupported("symbolic format spec")
    if type(x) is SymInt:
        return V._fmt_parts(x, spec)
    if isinstance(x, SymStr):
        return list(x._p) if not spec else unsupported("format spec for text")
    if is_sym(x):
        return V._fmt_parts(x, spec)
    return list(V.str_parts(format(x, spec)))


def fstr(*parts):
    """parts: str or (value, conversion, spec)"""
    out = []
    sym = False
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == "r":
            s = m_repr(v)
        elif conv == "a":
            s = m_ascii(v)
        elif conv == "s":
            s = m_str(v)
        elif is_sym(v):
            s = LAZY(v, spec) if type(v) in (SymDatetime, SymTimedelta, SymFloat) else SymStr._mk(fmt_parts(v, spec))
        elif type(v) is SymAddress:
            s = v.exploded
        else:
            s = format(v, spec if type(spec) is str else str(spec))
        if isinstance(s, SymStr) or (type(s) is str and V.MARK_A in s):
            sym = True
        out.append(s)
    if not sym:
        return "".join(out)
    r = []
    for s in out:
        r.extend(V.str_parts(s))
    return SymStr._mk(r)


def LAZY(v, spec):
    return V.marker(v, spec)


def mod(a, b):
    if isinstance(a, str) and not isinstance(a, SymStr):
        args = b if isinstance(b, tuple) else (b,)
        if has_sym(args):
            return percent(a, args)
    if type(a) is bytes and has_sym(b if isinstance(b, tuple) else (b,)):
        unsupported("bytes formatting")
    return a % b


def percent(fmt, args):
    import re
    out, pos = [], 0
    args = list(args)
    for m in re.finditer(r"%(0?)(\d*)([sdrxXi%])", fmt):
        out.extend(map(ord, fmt[pos:m.start()]))
        pos = m.end()
        z, w, t = m.groups()
        if t == "%":
            out.append(37)
            continue
        v = args.pop(0)
        if t == "r":
            out.extend(V.str_parts(m_repr(v)))
        elif t == "s":
            out.extend(V.str_parts(m_str(v)))
        else:
            t = "d" if t == "i" else t
            if type(v) is SymInt:
                out.extend(V._fmt_parts(v, z + w + (t if (z + w or t != "d") else "")))
            else:
                out.extend(map(ord, format(v, z + w + t)))
    out.extend(map(ord, fmt[pos:]))
    if args:
        raise TypeError("not all arguments converted during string formatting")
    return SymStr._mk(out)


def str_format(fmt, *args, **kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            first, rest = string._string.formatter_field_name_split(field)
            v = args[first] if isinstance(first, int) else kw[first]
            for is_attr, i in rest:
                v = getattr(v, i) if is_attr else getitem(v, i)
        out.append((v, conv, spec))
    return fstr(*out)


# ------------------------------------------------------------------ native method calls with symbolic arguments
def native_method(obj, name, a, k):
    """obj: native instance or type; some argument is symbolic. Returns (handled, value)."""
    t = type(obj)
    if t is bytes or t is bytearray or t is memoryview:
        f = getattr(SymBytes._raw(list(obj)), name, None)
        if f is not None:
            return True, f(*a, **k)
    elif t is str:
        if name == "join":
            return True, V.str_join(obj, a[0])
        if name == "format":
            return True, str_format(obj, *a, **k)
        s = SymStr.__new__(SymStr)
        s._p = list(V.str_parts(obj))
        return True, getattr(s, name)(*a, **k)
    elif t is dict or isinstance(obj, types.MappingProxyType):
        if name in ("get", "pop", "setdefault", "__getitem__") and a and sym_key(a[0]):
            for key in list(obj.keys()):
                if key_equal(a[0], key):
                    return True, getattr(obj, name)(key, *a[1:])
            if name == "get":
                return True, a[1] if len(a) > 1 else k.get("default")
            if name == "__getitem__":
                raise KeyError("symbolic key")
            if name == "pop":
                if len(a) > 1:
                    return True, a[1]
                raise KeyError("symbolic key")
    elif t is list or t is tuple:
        if name == "index" and not k and len(a) == 1:
            for i, x in enumerate(obj):
                if bool(x == a[0]):
                    return True, i
            raise ValueError("not in list")
        if name == "count":
            r = 0
            for x in obj:
                r = r + ite(x == a[0], 1, 0)
            return True, r
    elif t is _struct.Struct:
        if name == "unpack":
            return True, m_unpack(obj.format, *a, **k)
        if name == "unpack_from":
            return True, m_unpack_from(obj.format, *a, **k)
        if name == "pack":
            return True, struct_pack(obj.format, *a)
        if name == "iter_unpack":
            return True, m_iter_unpack(obj.format, *a)
    elif t is re.Pattern:
        return True, symre.method(obj, name, a, k)
    elif t is _dt.datetime:
        if name == "replace":
            f = dict(year=obj.year, month=obj.month, day=obj.day, hour=obj.hour, minute=obj.minute, second=obj.second, microsecond=obj.microsecond)
            f.update(k)
            return True, V.make_datetime(**f)
    elif isinstance(obj, int) and name == "to_bytes":
        return True, to_bytes(int(obj), *a, **k)
    elif isinstance(obj, type):
        return type_method(obj, name, a, k)
    return False, None


def sym_key(x):
    if type(x) is tuple:
        return any(sym_key(y) for y in x)
    return type(x) in (SymInt, SymBool) or isinstance(x, (SymBytes, SymStr)) and (isinstance(x, SymStr) or V.any_sym(x._e))


def key_equal(x, key):
    if type(x) is tuple:
        if type(key) is not tuple or len(x) != len(key):
            return False
        return all(key_equal(a, b) for a, b in zip(x, key))
    if V.is_num(x):
        return V.is_num(key) and bool(x == key)
    if isinstance(x, bytes) and not isinstance(key, bytes) or isinstance(x, str) and not isinstance(key, str):
        return False
    return bool(x == key)


def type_method(obj, name, a, k):
    if issubclass(obj, int):
        if name == "from_bytes":
            data = a[0] if a else k.get("bytes")
            bo = a[1] if len(a) > 1 else k.get("byteorder", "big")
            v = V.int_from_elems(elems(data) if V.is_bytes(data) else V._make_elems(data), bo, k.get("signed", False))
            return True, v if obj is int else call(obj, v)
        if name == "to_bytes":
            return True, to_bytes(*a, **k)
    if issubclass(obj, (bytes, bytearray, SymBytes)):
        if name == "fromhex":
            el = V.fromhex_elems(a[0])
            return True, SymByteArray._raw(el) if issubclass(obj, (bytearray, SymByteArray)) else SymBytes._mk(el)
        if name == "join":
            return True, callm(a[0], "join", *a[1:])
    if obj is str or obj is bytes or obj is bytearray or obj is int:
        if a and (is_sym(a[0]) or type(a[0]) is obj):
            return True, callm(a[0], name, *a[1:], **k)
    if obj is _dt.datetime:
        if name == "strptime":
            unsupported("strptime of symbolic text")
        if name in ("fromtimestamp", "utcfromtimestamp"):
            unsupported("fromtimestamp")
        if name == "combine":
            unsupported("datetime.combine")
    if obj is dict and name == "fromkeys":
        return False, None
    return False, None


_BUILTIN_METHODS = (types.BuiltinMethodType, types.MethodWrapperType)


def enum_call(cls, a, k):
    x = a[0]
    for m in cls:
        if V.is_num(m.value) and bool(x == m.value):
            return m
    if issubclass(cls, enum.Flag):
        return cls(int(operator.index(x)))
    raise ValueError("symbolic value is not a valid %s" % cls.__qualname__)


def call(f, *a, **k):
    ent = MODELS.get(id(f))
    if ent is not None and ent[0] is f:
        return ent[1](*a, **k)
    tf = type(f)
    if tf is types.FunctionType or tf is types.MethodType:
        return f(*a, **k)
    if tf in _BUILTIN_METHODS:
        s = getattr(f, "__self__", None)
        if s is not None and not isinstance(s, types.ModuleType):
            return callm(s, f.__name__, *a, **k)
    if tf is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if not has_sym(a, k):
        return f(*a, **k)
    if isinstance(f, type):
        if isinstance(f, enum.EnumMeta):
            if len(a) == 1 and type(a[0]) in (SymInt, SymBool):
                return enum_call(f, a, k)
        elif issubclass(f, int) and not issubclass(f, bool) and f is not int:
            return m_int(*a, **k)
    if tf is operator.itemgetter or tf is operator.attrgetter or tf is operator.methodcaller:
        return f(*a, **k)
    if f in _ITER_OK if isinstance(f, type) else False:
        return f(*a, **k)
    return f(*a, **k)


_ITER_OK = (list, tuple, zip, enumerate, reversed, iter)


_MISSING = object()


def callm(obj, name, *a, **k):
    t = type(obj)
    if name == "join" and len(a) == 1 and (t is str or t is bytes):
        a = (list(a[0]),)
    if t in _NATIVE and (has_sym(a, k) or (t is str and V.MARK_A in obj)):
        ok, r = native_method(obj, name, a, k)
        if ok:
            return r
    elif isinstance(obj, type):
        if obj in (int, bytes, bytearray, str, _dt.datetime, SymByteArray) and has_sym(a, k):
            ok, r = type_method(obj, name, a, k)
            if ok:
                return r
        elif obj is SymByteArray and name == "fromhex":
            return SymByteArray._raw(V.fromhex_elems(a[0]))
        f = getattr(obj, name)
        ent = MODELS.get(id(f))
        if ent is not None and ent[0] is f:
            return ent[1](*a, **k)
        if type(f) in _BUILTIN_METHODS:
            return f(*a, **k)
        return call(f, *a, **k)
    elif isinstance(obj, int) and name == "to_bytes" and t is not SymInt:
        return to_bytes(obj, *a, **k)
    elif t is list and name == "sort":
        return obj.sort(*a, **k)
    f = getattr(obj, name)
    tf = type(f)
    if tf is types.MethodType or tf is types.FunctionType:
        ent = MODELS.get(id(f))
        if ent is not None and ent[0] is f:
            return ent[1](*a, **k)
        return f(*a, **k)
    if tf in _BUILTIN_METHODS:
        ent = MODELS.get(id(f))
        if ent is not None and ent[0] is f:
            return ent[1](*a, **k)
        return f(*a, **k)
    return call(f, *a, **k)


_NATIVE = {bytes, bytearray, str, dict, list, tuple, int, bool, _struct.Struct, _dt.datetime, memoryview, types.MappingProxyType, re.Pattern}


# ------------------------------------------------------------------ operators
def getitem(o, i):
    ti = type(i)
    if ti is SymInt or ti is SymBool:
        if ti is SymBool:
            i = i.as_int()
        to = type(o)
        if to is list or to is tuple or to is bytes or to is bytearray or to is range:
            n = len(o)
            if n == 0 or (i.hi >= n or i.lo < -n) and bool(or_any([i >= n, i < -n])):
                raise IndexError("list index out of range")
            if i.lo < 0:
                i = ite(i < 0, i + n, i)
                if type(i) is not SymInt:
                    return o[i]
            if all(type(x) is int for x in o):
                return V.table_lookup(o, i)
            if all(V.is_num(x) for x in o) and n <= 64:
                r = o[n - 1]
                for k in range(n - 2, -1, -1):
                    r = ite(i == k, o[k], r)
                return r
            return o[i.__index__()]
        if to is str:
            if i.hi < len(o) and i.lo >= 0:
                return SymStr._mk([V.table_lookup([ord(c) for c in o], i)])
            return o[i.__index__()]
        if isinstance(o, (dict, types.MappingProxyType)):
            if all(type(x) is int for x in o.values()) and len(o) > 16:
                keys = sorted(x for x in o if type(x) is int)
                if keys == list(range(len(keys))) and len(keys) == len(o) and i.lo >= 0 and i.hi < len(keys):
                    return V.table_lookup([o[x] for x in keys], i)
            for key in list(o):
                if V.is_num(key) and bool(i == key):
                    return o[key]
            if hasattr(type(o), "__missing__"):
                return o[i]
            raise KeyError("symbolic key")
        return o[i]
    if (isinstance(o, dict) or type(o) is types.MappingProxyType) and (ti is tuple or isinstance(i, (SymBytes, SymStr))) and sym_key(i):
        for key in list(o):
            if key_equal(i, key):
                return o[key]
        if hasattr(type(o), "__missing__"):
            return o[i]
        raise KeyError("symbolic key")
    if ti is slice:
        to = type(o)
        if (to is bytes or to is list or to is tuple or to is str or to is bytearray):
            if type(i.start) is SymInt or type(i.stop) is SymInt:
                return o[V.conc_slice(i, len(o))]
    return o[i]


def contains(x, c):
    tc = type(c)
    if isinstance(c, SymBytes) or isinstance(c, SymStr):
        return c.contains(x)
    if tc in (list, tuple, set, frozenset, range) or tc is type({}.keys()) or tc is type({}.values()):
        if is_sym(x) or (tc in (list, tuple) and has_sym(c)):
            if tc is range and len(c) > 64 and c.step == 1:
                return and_all([x >= c.start, x < c.stop])
            acc = []
            for i in c:
                if i is x:
                    return True
                r = i == x
                acc.append(r if type(r) is SymBool else bool(r))
            return or_any(acc)
        return x in c
    if tc is bytes or tc is bytearray:
        if is_sym(x):
            return SymBytes._raw(list(c)).contains(x)
    if tc is str and isinstance(x, SymStr):
        s = SymStr.__new__(SymStr)
        s._p = [ord(ch) for ch in c]
        return s.contains(x)
    if isinstance(c, (dict, types.MappingProxyType)) and (is_sym(x) or type(x) is tuple and sym_key(x)):
        for key in list(c):
            if key_equal(x, key):
                return True
        return False
    if isinstance(c, enum.EnumMeta) and type(x) is SymInt:
        return or_any([x == m.value for m in c])
    return x in c


def not_contains(x, c):
    return not_(contains(x, c))


def not__(x):
    if type(x) is SymBool:
        return not_(x)
    if type(x) is SymInt:
        return x == 0
    return not x


def is_const(x, c):
    if type(x) is SymBool:
        return bool(x) is c
    return x is c


def and_(*thunks):
    """conjunction of side-effect-free operands; symbolic ones are conjoined without forking."""
    acc = []
    last = None
    for i, t in enumerate(thunks):
        if acc:
            try:
                v = t()
            except Exception:
                # the operand is guarded by the earlier ones
                if not bool(and_all(acc)):
                    return False
                v = t()
        else:
            v = t()
        if type(v) is SymBool:
            acc.append(v)
            continue
        if not acc:
            if i == len(thunks) - 1:
                return v
            if not v:
                return v
            continue
        if type(v) is bool:
            if not v:
                return False
            continue
        # value-like operand: fall back to forking
        if not bool(and_all(acc)):
            return False
        acc = []
        if i == len(thunks) - 1:
            return v
        if not v:
            return v
    return and_all(acc)


def or_(*thunks):
    acc = []
    for i, t in enumerate(thunks):
        if acc:
            try:
                v = t()
            except Exception:
                if bool(or_any(acc)):
                    return True
                v = t()
        else:
            v = t()
        if type(v) is SymBool:
            acc.append(v)
            continue
        if not acc:
            if i == len(thunks) - 1:
                return v
            if v:
                return v
            continue
        if type(v) is bool:
            if v:
                return True
            continue
        if bool(or_any(acc)):
            return True
        acc = []
        if i == len(thunks) - 1:
            return v
        if v:
            return v
    return or_any(acc)


def ifexp(c, fa, fb):
    t = type(c)
    if t is SymBool or t is SymInt:
        try:
            a, b = fa(), fb()
        except Exception:
            return fa() if bool(c) else fb()
        if V.is_num(a) and V.is_num(b):
            return ite(mkbool(V.truth(c)), a, b)
        if a is b:
            return a
        return a if bool(c) else b
    return fa() if c else fb()


def symcond(c):
    """the condition if it is symbolic, so that the statement can be merged"""
    t = type(c)
    return t is SymBool or t is SymInt


def mergeable(*vals):
    for v in vals:
        t = type(v)
        if not (t is int or t is SymInt or t is SymBool or t is bool):
            return False
    return True


def merge(c, a, b):
    """merge the tuples of variable values of the two branches"""
    for x, y in zip(a, b):
        if not V.can_merge(x, y):
            return a if bool(c) else b
    cond = mkbool(V.truth(c))
    return tuple(x if x is y else ite(cond, x, y) for x, y in zip(a, b))
