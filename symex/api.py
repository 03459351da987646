"""The interface between harnesses and the two back ends: SymE (symbolic, in the engine) and ConcE (replay on the real package)."""
import importlib
import struct as _struct
import sys


class Out:
    """result of a call into the code under test"""
    __slots__ = ("ok", "value", "exc")

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def raised(self, *types):
        return (not self.ok) and isinstance(self.exc, types)

    def __repr__(self):
        return "returned" if self.ok else "raised " + type(self.exc).__name__


class Mods:
    def __init__(self, pkg="elgas"):
        self._p = pkg

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return importlib.import_module(self._p + "." + name)


PARAM_MODULES = ("analog_quantity binary compressibility conversion_coefficient counter device_error diagnostics difference_counter energy "
                 "enumerations error_counter error_standard_counter factory flow_rate gas_composition modem setpoint standard_counter "
                 "statistics sum_of_alarms system_parameters tariff_counter time_window timer").split()


class BaseE:
    symbolic = False

    def __init__(self):
        self.m = Mods()
        self.p = Mods("elgas.parameters")
        self._undo = []

    def expose(self, name):
        """the class or function `name` of elgas.parameters"""
        for n in PARAM_MODULES:
            m = importlib.import_module("elgas.parameters." + n)
            if hasattr(m, name):
                return getattr(m, name)
        raise AttributeError(name)

    def patch(self, modname, attr, value):
        mod = importlib.import_module(modname)
        old = getattr(mod, attr)
        self._undo.append((mod, attr, old))
        setattr(mod, attr, value)
        for n, m in list(sys.modules.items()):
            if (n == "elgas" or n.startswith("elgas.")) and m is not None:
                for k, v in list(vars(m).items()):
                    if v is old:
                        self._undo.append((m, k, old))
                        setattr(m, k, value)

    def unpatch(self):
        for mod, attr, old in reversed(self._undo):
            setattr(mod, attr, old)
        self._undo = []

    def same_all(self, a, b, names):
        return self.all([self.same(getattr(a, n), getattr(b, n)) for n in names])


class ConcE(BaseE):
    """values come from a recorded model; the code under test is the real package"""

    def __init__(self, inputs):
        super().__init__()
        self.inputs = dict((n, v) for n, k, v in inputs if k != "draw")
        self.draws = [v for n, k, v in inputs if k == "draw"]
        self.dpos = 0
        self.failed = []
        self.log = []
        self.names = {}

    class Stop(BaseException):
        pass

    def _get(self, name, default):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        if n:
            name = "%s#%d" % (name, n)
        return self.inputs.get(name, default)

    def _within(self, ok):
        """a model that is outside what was asked for is no counterexample"""
        if not ok:
            self.log.append("assumption failed")
            raise ConcE.Stop()

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        self._within(lo <= v <= hi)
        return v

    def byte(self, name):
        return self._get(name, 0)

    def bytes(self, name, n):
        v = self._get(name, "00" * n)
        return bytes.fromhex(v)

    def text(self, name, n, lo=33, hi=126, exclude=()):
        t = self._get(name, chr(lo) * n)
        self._within(all(lo <= ord(c) <= hi for c in t))
        return t

    def bool(self, name):
        return bool(self._get(name, False))

    def choose(self, name, options):
        i = self._get(name, 0)
        self._within(0 <= i < len(options))
        return options[i]

    def float(self, name, fmt="d"):
        raw = bytes.fromhex(self._get(name, "00" * (4 if fmt == "f" else 8)))
        return _struct.unpack("<" + fmt, raw)[0]

    def finite(self, f):
        import math
        return math.isfinite(f)

    def datetime(self, name, y0=2000, y1=2099):
        import datetime
        v = self._get(name, [y0, 1, 1, 0, 0, 0])
        try:
            t = datetime.datetime(*v)
        except ValueError:
            t = None
        self._within(t is not None and y0 <= t.year <= y1)
        return t

    def assume(self, c):
        if not c:
            self.log.append("assumption failed")
            raise ConcE.Stop()

    def check(self, c, label):
        self.log.append("check:" + label)
        if not c:
            self.failed.append(label)
            raise ConcE.Stop()

    def run(self, f, *a, **k):
        try:
            o = Out(True, f(*a, **k))
        except Exception as e:
            o = Out(False, None, e)
        self.log.append("ok" if o.ok else type(o.exc).__name__)
        return o

    def fail(self, label, detail=""):
        self.check(False, label)

    def all(self, items):
        return all(items)

    def any(self, items):
        return any(items)

    def ite(self, c, a, b):
        return a if c else b

    def same(self, a, b):
        return conc_same(a, b)

    def aes(self, key, iv, data):
        from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
        c = Cipher(algorithms.AES(bytes(key)), modes.CBC(bytes(iv))).encryptor()
        return c.update(bytes(data)) + c.finalize()

    def quiet_cipher(self, free=()):
        pass

    def fixed_draws(self):
        pass

    def quiet_compare(self, free=()):
        pass

    def unaes(self, key, iv, data):
        from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
        c = Cipher(algorithms.AES(bytes(key)), modes.CBC(bytes(iv))).decryptor()
        return c.update(bytes(data)) + c.finalize()

    def table(self, t, i):
        return t[i]

    # random draws in the order of the recorded ones
    def next_draw(self, kind, n):
        v = 0
        if self.dpos < len(self.draws):
            v = self.draws[self.dpos][1]
        self.dpos += 1
        return v


def conc_same(a, b):
    import datetime
    import attr
    if isinstance(a, float) and isinstance(b, float):
        return _struct.pack("<d", a) == _struct.pack("<d", b) or (a != a and b != b)
    if isinstance(a, (bytes, bytearray)) or isinstance(b, (bytes, bytearray)):
        return isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)) and bytes(a) == bytes(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(conc_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(conc_same(a[k], b[k]) for k in a)
    if attr.has(type(a)) and type(a) is type(b):
        return all(conc_same(getattr(a, f.name), getattr(b, f.name)) for f in attr.fields(type(a)))
    if a is None or b is None:
        return a is b
    return bool(a == b)
