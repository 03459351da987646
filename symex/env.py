"""Models of the environment: AES as an arbitrary block permutation per key (exact on concrete data), logging as a no-op."""
import secrets
import structlog
import z3
from cryptography.exceptions import AlreadyFinalized
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

from . import core, rt, values as V
from .values import SymBytes, SymInt, elems


# ------------------------------------------------------------------ logging
class NoLog:
    def _n(self, *a, **k):
        return None

    debug = info = warning = warn = error = exception = critical = msg = log = fatal = _n

    def bind(self, *a, **k):
        return self

    new = unbind = try_unbind = bind


NOLOG = NoLog()
rt.model(structlog.get_logger, structlog.getLogger)(lambda *a, **k: NOLOG)
if hasattr(structlog, "stdlib"):
    rt.model(structlog.stdlib.get_logger)(lambda *a, **k: NOLOG)


# ------------------------------------------------------------------ secrets
rt.model(secrets.token_bytes)(lambda n=32: rt.draw_bytes(n))
rt.model(secrets.randbelow)(lambda n: rt.draw_int(0, n - 1, "int"))
rt.model(secrets.choice)(lambda seq: rt.pick(seq))


# ------------------------------------------------------------------ AES
def _w8(x):
    return V.to_w(x, 8)


def same_terms(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if type(x) is int and type(y) is int:
            if x != y:
                return False
        elif type(x) is int or type(y) is int:
            e = core.CUR
            z = e.simp(_w8(x) == _w8(y))
            if not (z3.is_true(z) or e.known(z) is True):
                return False
        elif not (x is y or _w8(x).eq(_w8(y))):
            return False
    return True


def _native_block(key, data, enc):
    c = Cipher(algorithms.AES(bytes(key)), modes.ECB())
    c = c.encryptor() if enc else c.decryptor()
    return list(c.update(bytes(data)) + c.finalize())


def _simp(el):
    out = []
    for x in el:
        if type(x) is SymInt:
            x = V.mkint(z3.simplify(_w8(x)), x.lo, x.hi, x.prov)
        out.append(x)
    return out


def _vec(el):
    return z3.Concat(*[_w8(x) for x in el])


def block(key, data, enc):
    """one AES block; enc False: the inverse"""
    e = core.CUR
    tab = e.tables.setdefault("aes", [])
    i, o = (1, 2) if enc else (2, 1)
    for r in tab:
        if same_terms(r[0], key) and same_terms(r[i], data):
            return r[o]
    if not V.any_sym(key) and not V.any_sym(data):
        res = _native_block(key, data, enc)
    else:
        nm = e.uniq("aes")
        res = [V.new_int("%s[%d]" % (nm, k), 0, 255) for k in range(16)]
        q = e.tables.get("quiet")
        if enc and q is not None:
            for x in res:
                if q[0] not in q[1]:
                    e.assume(V.zbool(V.and_all([x != r for r in (0x0D, 0x1B, 0x8D)])))
                q[0] += 1
    rec = (list(key), data, res) if enc else (list(key), res, data)
    for r in tab:
        if len(r[0]) != len(key):
            continue
        keq = V.zbool(V.seq_eq(r[0], key))
        if z3.is_false(keq):
            continue
        c = z3.Implies(keq, (_vec(r[1]) == _vec(rec[1])) == (_vec(r[2]) == _vec(rec[2])))
        c = z3.simplify(c)
        if not z3.is_true(c):
            e.assume(c, raw="quiet" in e.tables)
    tab.append(rec)
    return res


def xor(a, b):
    return _simp([x ^ y for x, y in zip(a, b)])


def cbc(key, iv, data, enc):
    """list of elements -> list of elements; also returns the chaining value"""
    e = core.CUR
    hist = e.tables.setdefault("cbc", [])
    out, prev = [], list(iv)
    for k in range(0, len(data), 16):
        blk = list(data[k:k + 16])
        if enc:
            c = block(key, xor(blk, prev), True)
            hist.append((list(key), blk, prev, c))
            out.extend(c)
            prev = c
        else:
            for hk, hp, hv, hc in hist:
                if same_terms(hk, key) and same_terms(hv, prev) and same_terms(hc, blk):
                    p = hp
                    break
            else:
                p = xor(block(key, blk, False), prev)
                hist.append((list(key), p, prev, blk))
            out.extend(p)
            prev = blk
    return out, prev


class FAes:
    name = "AES"
    block_size = 128

    def __init__(self, key):
        if not V.is_bytes(key):
            raise TypeError("key must be bytes")
        self.k = list(elems(key))
        if len(self.k) not in (16, 24, 32):
            raise ValueError("Invalid key size (%d) for AES." % (8 * len(self.k)))
        self.key = key
        self.key_size = 8 * len(self.k)


class FMode:
    def __init__(self, kind, iv=None):
        if kind == "CBC" and not V.is_bytes(iv):
            raise TypeError("initialization_vector must be bytes")
        self.kind, self.iv = kind, iv
        self.initialization_vector = iv


class FCipher:
    def __init__(self, algorithm, mode, backend=None):
        if not isinstance(algorithm, FAes):
            V.unsupported("cipher algorithm")
        if not isinstance(mode, FMode):
            V.unsupported("cipher mode")
        if mode.kind == "CBC" and len(mode.iv) != 16:
            raise ValueError("Invalid IV size (%d) for CBC." % (8 * len(mode.iv)))
        self.a, self.m = algorithm, mode

    def encryptor(self):
        return FCtx(self.a, self.m, True)

    def decryptor(self):
        return FCtx(self.a, self.m, False)


class FCtx:
    def __init__(self, a, m, enc):
        self.a, self.m, self.enc = a, m, enc
        self.prev = list(elems(m.iv)) if m.kind == "CBC" else None
        self.buf = []
        self.done = False

    def update(self, data):
        if self.done:
            raise AlreadyFinalized("Context was already finalized.")
        if not V.is_bytes(data):
            raise TypeError("a bytes-like object is required")
        self.buf.extend(elems(data))
        n = len(self.buf) // 16 * 16
        blk, self.buf = self.buf[:n], self.buf[n:]
        if self.m.kind == "CBC":
            out, self.prev = cbc(self.a.k, self.prev, blk, self.enc)
        else:
            out = []
            for k in range(0, n, 16):
                out.extend(block(self.a.k, blk[k:k + 16], self.enc))
        return SymBytes._mk(out)

    def finalize(self):
        if self.done:
            raise AlreadyFinalized("Context was already finalized.")
        if self.buf:
            raise ValueError("The length of the provided data is not a multiple of the block length.")
        self.done = True
        return b""


rt.model(Cipher)(FCipher)
rt.model(algorithms.AES)(FAes)
for _n in ("AES128", "AES256"):
    if hasattr(algorithms, _n):
        rt.model(getattr(algorithms, _n))(FAes)
rt.model(modes.CBC)(lambda initialization_vector: FMode("CBC", initialization_vector))
rt.model(modes.ECB)(lambda: FMode("ECB"))
for _n in ("CTR", "OFB", "CFB", "CFB8", "GCM", "XTS"):
    rt.model(getattr(modes, _n))(lambda *a, **k: FMode("other", a[0] if a else None) if V.unsupported("cipher mode") else None)
