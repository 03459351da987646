from props.common import le, ref_crc
from symex.case import Case

PROPERTY = "C05"
ASSUMPTIONS = ["the AES block cipher is an arbitrary permutation of 16-byte blocks for each key (exact AES when key and block are concrete)",
               "key of 16 bytes (it is also the IV), key id 0..255, payload is bytes shorter than 65536"]


def layout(E, n, klen, kind):
    S = E.m.security
    key = E.bytes("key", klen) if n <= 48 else bytes(range(17, 17 + klen))
    kid = E.choose("key_id", list(S.EncryptionKeyId)) if kind == "enum" else E.byte("key_id") if n <= 48 else E.choose("key_id", [0, 7, 255])
    data = payload(E, n)
    ctx = S.CipherContext(kid, key)
    out = E.run(ctx.encrypt, data)
    E.check(out.ok, "encryption succeeds")
    enc = out.value
    pad = (-(n + 2)) % 16
    E.check(len(enc) == 3 + n + pad + 2, "least padding to whole blocks")
    E.check(E.same(enc[:3], le(n, 2) + bytes([kid])), "header is length and key id")
    plain = E.unaes(key, key, enc[3:])
    E.check(E.same(plain[:n], data), "content starts with the payload")
    c = ref_crc(enc[:3] + plain[:-2])
    E.check(E.same(plain[-2:], bytes([c >> 8, c & 255])), "content ends with the CRC over length, key id, payload and padding")
    back = E.run(ctx.decrypt, enc)
    E.check(back.ok, "decryption succeeds")
    E.check(E.same(back.value, data), "decryption returns the payload")
    other = E.run(S.CipherContext(kid, key).decrypt, enc)
    E.check(other.ok, "another context with the same key decrypts it")
    E.check(E.same(other.value, data), "another context with the same key returns the payload")


def payload(E, n):
    if n <= 48:
        return E.bytes("payload", n)
    return bytes((13 * i + 5) & 255 for i in range(n - 8)) + E.bytes("payload", 8)


def twice(E, n):
    """two payloads under one context"""
    S = E.m.security
    ctx = S.CipherContext(E.byte("key_id"), E.bytes("key", 16))
    a, b = E.bytes("a", n), E.bytes("b", n + 1)
    ea, eb = E.run(ctx.encrypt, a), E.run(ctx.encrypt, b)
    E.check(E.all([ea.ok, eb.ok]), "encryption succeeds")
    da, db = E.run(ctx.decrypt, ea.value), E.run(ctx.decrypt, eb.value)
    E.check(E.all([da.ok, db.ok]), "decryption succeeds")
    E.check(E.all([E.same(da.value, a), E.same(db.value, b)]), "decryption returns the payload")


NEED = ["decryption returns the payload"]
SIZES = list(range(0, 34)) + [45, 46, 47, 48, 126, 127, 128, 255, 256, 257, 300]
CASES = [Case("len-%d" % n, layout, need=NEED, n=n, klen=16, kind="int", secs=60, bound="every %d-byte payload%s, 16-byte key, key id and padding" % (n, " (last 8 bytes free, fixed key, three key ids)" if n > 48 else "")) for n in SIZES]
CASES += [Case("len-%d-named" % n, layout, need=NEED, n=n, klen=16, kind="enum", secs=60, bound="%d-byte payloads, every named key id" % n) for n in (5, 14)]
CASES += [Case("twice-%d" % n, twice, need=NEED, n=n, secs=60, bound="two payloads of %d and %d bytes under one context" % (n, n + 1)) for n in (0, 6, 13, 14)]
CASES += [Case("len-%d" % n, layout, tier="thorough", need=NEED, n=n, klen=16, kind="int", secs=100, bound="%d-byte payload, last 8 bytes free, fixed key, three key ids" % n) for n in list(range(49, 70)) + [520, 1024, 4000]]
