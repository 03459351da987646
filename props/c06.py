from props.common import le, ref_crc
from symex.case import Case

PROPERTY = "C06"
ASSUMPTIONS = ["the AES block cipher is an arbitrary permutation of 16-byte blocks for each key (exact AES when key and block are concrete)",
               "the encrypted payload is header (3 bytes) plus whole blocks, or malformed in length; key of 16 bytes"]


def genuine(E, key, kid, n):
    data = E.bytes("payload", n)
    pad = E.bytes("padding", (-(n + 2)) % 16)
    head = le(n, 2) + bytes([kid])
    c = ref_crc(head + data + pad)
    return data, head, data + pad + bytes([c >> 8, c & 255])


def decides(E, blocks):
    """any header, any decrypted content"""
    S = E.m.security
    key, kid = E.bytes("key", 16), E.byte("key_id")
    head = E.bytes("header", 3)
    content = E.bytes("content", 16 * blocks)
    sent = head + E.aes(key, key, content)
    c = ref_crc(head + content[:-2])
    n = head[0] + 256 * head[1]
    crc = content[-2] == c >> 8 and content[-1] == c & 255
    mine = head[2] == kid
    out = E.run(S.CipherContext(kid, key).decrypt, sent)
    if out.ok:
        E.check(crc, "accepted only with matching CRC")
        E.check(mine, "accepted only with the context's key id")
        E.check(len(out.value) <= len(content), "nothing beyond the content is returned")
        E.check(E.same(out.value, content[:len(out.value)]), "returns the start of the decrypted content")
        E.check(E.any([n > len(content) - 2, len(out.value) == n]), "returns as many bytes as the header says")
    else:
        E.check(E.any([not crc, not mine, n > len(content) - 2]), "refused only with a wrong CRC, key id or length")


def genuine_ok(E, n):
    S = E.m.security
    key, kid = E.bytes("key", 16), E.byte("key_id")
    data, head, content = genuine(E, key, kid, n)
    out = E.run(S.CipherContext(kid, key).decrypt, head + E.aes(key, key, content))
    E.check(out.ok, "a genuine payload is accepted")
    E.check(E.same(out.value, data), "a genuine payload is returned")


def altered_header(E, n):
    S = E.m.security
    key, kid = E.bytes("key", 16), E.byte("key_id")
    data, head, content = genuine(E, key, kid, n)
    p = E.choose("position", [0, 1, 2])
    x = E.byte("new")
    E.assume(x != head[p])
    head = head[:p] + bytes([x]) + head[p + 1:]
    out = E.run(S.CipherContext(kid, key).decrypt, head + E.aes(key, key, content))
    E.check(not out.ok, "an altered header is refused")


def altered_content(E, n):
    S = E.m.security
    key, kid = E.bytes("key", 16), E.byte("key_id")
    data, head, content = genuine(E, key, kid, n)
    p = E.choose("position", list(range(len(content))))
    x = E.byte("new")
    E.assume(x != content[p])
    content = content[:p] + bytes([x]) + content[p + 1:]
    out = E.run(S.CipherContext(kid, key).decrypt, head + E.aes(key, key, content))
    E.check(not out.ok, "an altered content is refused")


def other_context(E, n):
    """a genuine payload for another key id; the same payload with the context's own key id is accepted"""
    S = E.m.security
    key, kid, other = E.bytes("key", 16), E.byte("key_id"), E.byte("other_id")
    E.assume(kid != other)
    data, head, content = genuine(E, key, kid, n)
    out = E.run(S.CipherContext(other, key).decrypt, head + E.aes(key, key, content))
    E.check(not out.ok, "another key id is refused")


def malformed(E, n):
    S = E.m.security
    key, kid = E.bytes("key", 16), E.byte("key_id")
    out = E.run(S.CipherContext(kid, key).decrypt, E.bytes("sent", n))
    E.check(not out.ok, "a payload that is not header and whole blocks is refused")


CASES = [Case("decides-%d" % b, decides, need=["accepted only with matching CRC", "refused only with a wrong CRC, key id or length"], blocks=b, secs=100,
              bound="every header, key and %d-block content" % b) for b in (1, 2, 3)]
for _n in (0, 1, 5, 13, 14, 15, 20, 30):
    CASES += [Case("genuine-%d" % _n, genuine_ok, need=["a genuine payload is returned"], n=_n, secs=60, bound="every genuine payload of %d bytes" % _n),
              Case("header-%d" % _n, altered_header, need=["an altered header is refused"], n=_n, secs=60, bound="every genuine payload of %d bytes, any header byte altered" % _n),
              Case("content-%d" % _n, altered_content, need=["an altered content is refused"], n=_n, secs=60, bound="every genuine payload of %d bytes, any decrypted byte altered" % _n),
              Case("key-id-%d" % _n, other_context, need=["another key id is refused"], n=_n, secs=60, bound="every genuine payload of %d bytes, any other key id" % _n)]
CASES += [Case("malformed-%d" % n, malformed, need=["a payload that is not header and whole blocks is refused"], n=n, secs=40, bound="all %d-byte strings" % n) for n in (0, 1, 2, 3, 4, 18, 20, 34, 36)]
CASES += [Case("%s-%d" % (nm, n), f, tier="thorough", n=n, secs=100, need=[l], bound="payload of %d bytes" % n) for n in (46, 60, 100)
          for nm, f, l in (("genuine", genuine_ok, "a genuine payload is returned"), ("header", altered_header, "an altered header is refused"), ("content", altered_content, "an altered content is refused"))]
