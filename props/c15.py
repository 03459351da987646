import datetime

from props.common import PROTOCOLS
from symex.case import Case

PROPERTY = "C15"
ASSUMPTIONS = ["station id and firmware version hold printable non-space Latin-1 characters followed by zero bytes (C23 decides every other content)",
               "BCD identifiers without any assumption; payload of 141 bytes"]
SIZE = 141


def unle(b):
    v = 0
    for i, x in enumerate(b):
        v = v + (x << (8 * i))
    return v


def dec(b):
    v = 0
    for x in b:
        v = 100 * v + 10 * (x >> 4) + (x & 15)
    return v


def bcd_ok(E, b):
    return E.all([E.all([x & 15 <= 9, x >> 4 <= 9]) for x in b])


def small_bcd(E, name, n, free):
    """n BCD bytes, the last `free` of them symbolic digits"""
    lead = bytes([0x12, 0x34, 0x56, 0x78, 0x90, 0x98, 0x76, 0x54, 0x32, 0x10][:n - free])
    return lead + E.bytes(name, free)


def message(E, sl, fl, free, length=None, version=2, protocol=None):
    f = {}
    f["length"] = length if length is not None else E.bytes("length", 2)
    f["version"] = bytes([version])
    f["guid"] = E.bytes("guid", 16)
    f["station"] = E.text("station", sl, 33, 126)
    f["sim"] = small_bcd(E, "sim", 10, free)
    f["modem"] = small_bcd(E, "modem", 8, free)
    f["protocol"] = bytes([E.choose("protocol", [0, 1, 2, 3]) if protocol is None else protocol])
    for n, k in FIELDS:
        f[n] = E.bytes(n, k)
    f["firmware"] = E.text("firmware", fl, 33, 126)
    return f


FIELDS = [("address_1", 2), ("address_2", 1), ("signal", 1), ("connections", 4), ("last_connection", 4), ("errors", 4), ("last_error", 4),
          ("resets", 4), ("last_reset", 4), ("tcp", 4), ("all", 4), ("serial", 4), ("ip", 4), ("modem_error_time", 4), ("modem_error", 1),
          ("capacity", 2), ("voltage", 2)]


def assemble(f):
    b = f["length"] + f["version"] + f["guid"] + f["station"].encode("latin-1") + bytes(17 - len(f["station"])) + f["sim"] + f["modem"] + f["protocol"]
    for n, k in FIELDS:
        b = b + f[n]
    return b + f["firmware"].encode("latin-1") + bytes(33 - len(f["firmware"]))


def when(E, t, b):
    base = datetime.datetime(2000, 1, 1)
    return (t - base).total_seconds() == unle(b)


def decode(E, sl, fl, free):
    f = message(E, sl, fl, free)
    b = assemble(f)
    out = E.run(E.m.application.CallRequest.from_bytes, b)
    if E.all([bcd_ok(E, f["sim"]), bcd_ok(E, f["modem"])]):
        E.check(out.ok, "a well-formed message is decoded")
        r = out.value
        E.check(r.version == 2, "version")
        E.check(E.same(r.guid, f["guid"]), "guid")
        E.check(E.same(r.station_id, f["station"]), "station id")
        E.check(E.same(int(r.sim_card_id), dec(f["sim"])), "SIM id")
        E.check(E.same(int(r.modem_id), dec(f["modem"])), "modem id")
        E.check(r.sim_card_id == str(dec(f["sim"])), "SIM id as text")
        E.check(r.modem_id == str(dec(f["modem"])), "modem id as text")
        E.check(int(r.protocol) == f["protocol"][0], "protocol")
        E.check(E.all([r.address_1 == unle(f["address_1"]), r.address_2 == f["address_2"][0]]), "addresses")
        E.check(r.signal_strength == f["signal"][0], "signal strength")
        E.check(E.all([r.connections == unle(f["connections"]), r.connection_errors == unle(f["errors"]), r.resets == unle(f["resets"])]), "counters")
        E.check(E.all([r.tcp_data == unle(f["tcp"]), r.all_data == unle(f["all"])]), "data volumes")
        E.check(when(E, r.last_connection_time, f["last_connection"]), "last connection time")
        E.check(when(E, r.last_connection_error_time, f["last_error"]), "last connection error time")
        E.check(when(E, r.last_reset_time, f["last_reset"]), "last reset time")
        E.check(when(E, r.last_modem_error_time, f["modem_error_time"]), "last modem error time")
        E.check(r.serial_number == str(unle(f["serial"])), "serial number")
        E.check(r.ip_address == ".".join([str(x) for x in f["ip"]]), "IP address")
        E.check(r.last_modem_error == f["modem_error"][0], "last modem error")
        E.check(E.all([r.modem_battery_capacity == unle(f["capacity"]), r.modem_battery_voltage == unle(f["voltage"])]), "battery")
        E.check(E.same(r.firmware_version, f["firmware"]), "firmware version")
    else:
        E.check(not out.ok, "an invalid BCD identifier is refused")


def protocol(E):
    """any protocol byte"""
    f = message(E, 3, 3, 0, length=b"\x8d\x00", protocol=0)
    p = E.byte("p")
    f["protocol"] = bytes([p])
    out = E.run(E.m.application.CallRequest.from_bytes, assemble(f))
    if p <= 3:
        E.check(out.ok, "a known protocol is accepted")
        E.check(int(out.value.protocol) == p, "protocol")
        E.check(isinstance(out.value.protocol, E.m.constants.Protocol), "the protocol is a named one")
        for name, k in PROTOCOLS.items():
            if out.value.protocol is getattr(E.m.constants.Protocol, name):
                E.check(p == k, "the protocol of its name")
    else:
        E.check(not out.ok, "an unknown protocol is refused")


def digit(E, field, size):
    """one arbitrary byte anywhere in a BCD identifier"""
    f = message(E, 3, 3, 0, length=b"\x8d\x00", protocol=0)
    p = E.choose("position", list(range(size)))
    x = E.byte("x")
    f[field] = f[field][:p] + bytes([x]) + f[field][p + 1:]
    out = E.run(E.m.application.CallRequest.from_bytes, assemble(f))
    if E.all([x & 15 <= 9, x >> 4 <= 9]):
        E.check(out.ok, "a well-formed message is decoded")
        E.check(E.same(int(getattr(out.value, "sim_card_id" if field == "sim" else "modem_id")), dec(f[field])), "BCD identifier")
    else:
        E.check(not out.ok, "an invalid BCD identifier is refused")


def truncated(E, lo, hi):
    n = E.choose("length", list(range(lo, hi)))
    f = message(E, 5, 5, 0, length=b"\x8d\x00", protocol=0)
    out = E.run(E.m.application.CallRequest.from_bytes, assemble(f)[:n])
    E.check(not out.ok, "a truncated message is refused")


W = ["firmware version"]
CASES = [Case("fields-%d-%d-%d" % (s, w, d), decode, sl=s, fl=w, free=d, secs=100, need=W + (["an invalid BCD identifier is refused"] if d else []),
              bound="station id of %d, firmware version of %d characters, last %d bytes of both BCD identifiers free, all numbers free" % (s, w, d))
         for s, w, d in ((17, 33, 0), (0, 0, 1), (1, 1, 0), (6, 10, 0), (16, 32, 1))]
CASES += [Case("fields-%d-%d-%d" % (s, w, d), decode, tier="thorough", sl=s, fl=w, free=d, secs=170, need=W, bound="as above") for s, w, d in ((8, 20, 2), (10, 5, 3))]
CASES.append(Case("protocol", protocol, need=["an unknown protocol is refused", "protocol"], bound="every protocol byte"))
CASES.append(Case("sim-digit", digit, field="sim", size=10, secs=100, need=["BCD identifier", "an invalid BCD identifier is refused"], bound="one free byte at every position of the SIM id"))
CASES.append(Case("modem-digit", digit, field="modem", size=8, secs=100, need=["BCD identifier", "an invalid BCD identifier is refused"], bound="one free byte at every position of the modem id"))
CASES += [Case("truncated-%d" % k, truncated, lo=k, hi=min(k + 24, SIZE), secs=100, need=["a truncated message is refused"], bound="truncated to %d..%d bytes" % (k, min(k + 24, SIZE) - 1)) for k in range(0, SIZE, 24)]
