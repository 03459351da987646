"""Reference definitions taken from the protocol description (not from the code under test)."""
RESERVED = (0x0D, 0x1B, 0x8D)


def ref_lrc(d):
    r = 0
    for b in d:
        r = r ^ b
    return r


def ref_sum(d):
    r = 0
    for b in d:
        r = (r + b) & 255
    return r


def ref_drc(d):
    r = 0
    for b in d:
        r = (((r & 127) << 1) | (r >> 7)) ^ b
    return r


def ref_crc(d):
    crc = 0xFFFF
    for b in d:
        crc = crc ^ b
        for _ in range(8):
            low = crc & 1
            crc = (crc >> 1) ^ (0xA001 * low)
    return ((crc & 255) << 8) | (crc >> 8)


def ref_escape(frame):
    """frame: bytes ending in 0x0D"""
    out = bytearray()
    for b in frame[:-1]:
        if b == 0x0D:
            out += b"\x1b\x0e"
        elif b == 0x1B:
            out += b"\x1b\x1b"
        elif b == 0x8D:
            out += b"\x1b\x0f"
        else:
            out.append(b)
    out.append(0x0D)
    return bytes(out)


def ref_unescape(wire):
    out = bytearray()
    i = 0
    while i < len(wire):
        b = wire[i]
        if b == 0x1B and i + 1 < len(wire):
            n = wire[i + 1]
            if n == 0x0E:
                out.append(0x0D)
            elif n == 0x1B:
                out.append(0x1B)
            elif n == 0x0F:
                out.append(0x8D)
            else:
                out.append(b)
                out.append(n)
            i += 2
        else:
            out.append(b)
            i += 1
    return bytes(out)


def le(v, n):
    return bytes([(v >> (8 * i)) & 255 for i in range(n)])


def ref_frame(ftype, service, dst, src, payload):
    """dst, src: (address 1, address 2)"""
    body = bytes([0xFE, ftype, service]) + le(len(payload) + 15, 2) + le(dst[0], 2) + bytes([dst[1]]) + le(src[0], 2) + bytes([src[1]]) + payload
    return b"\x02" + body + bytes([ref_lrc(body), ref_sum(body), ref_drc(body)]) + b"\x0d"


def ref_encrypt(E, key, kid, payload, pad):
    """pad(n): n filler bytes"""
    n = (-(len(payload) + 2)) % 16
    head = le(len(payload), 2) + bytes([kid])
    body = payload + pad(n)
    c = ref_crc(head + body)
    return head + E.aes(key, key, body + bytes([c >> 8, c & 255]))


def quiet(E, data):
    """assume that no byte of data is a reserved character (the general case is the subject of C01)"""
    for b in data:
        E.assume(E.all([b != r for r in RESERVED]))
    return data


def quiet_bytes(E, name, n):
    return quiet(E, E.bytes(name, n))


def no_fork_quiet(E, wire_frame, lo, hi):
    quiet(E, wire_frame[lo:hi])


def last_exc_name(out):
    return type(out.exc).__name__


# the documented names of the numbers in the protocol
ARCHIVES = dict(EXTREME=0, DATA=1, BINARY=2, DAILY=3, MONTHLY=4, SETTING=5, FAST_1=6, FAST_2=7, STATUS=8, BILLING=9, GAS_COMPOSITION=10)
PROTOCOLS = dict(ELGAS2=0, QMD=1, RDS=2, MODBUS=3)
KEY_IDS = dict(FACTORY=1, TEMPORARY=2, ADMINISTRATOR=3, MAINTENANCE=4, USER_1=5, USER_2=6, USER_3=7)
