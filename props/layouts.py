"""Documented layouts of the device parameter objects (independent of the code under test).

An item is (attribute, kind): iN little-endian integer of N bytes, tN text of N bytes, f / d IEEE float / double,
g IEEE float that may be shown rounded to 7 places, ip IPv4 address, hN hex string of N bytes, xN N unused bytes,
("", [(attribute, mask, shift)]) flags of the byte read last, none: not part of the data.
"""
import struct

H = [("number", "i2"), ("id", "i2"), ("address_in_actual_values", "i2"), ("address_in_data_archive_record", "i2"), ("bit_control", "i1"),
     ("in_data_archive", ("bit", 0x01)), ("in_daily_archive", ("bit", 0x02)), ("in_monthly_archive", ("bit", 0x04))]
FACTORY = [("in_factory_archive", ("bit", 0x08))]
DOUBLE = [("is_double", ("bit", 0x08))]
METRO = [("is_metrological_quantity", ("bit", 0x10))]
NAME = [("name", "t23")]
UNIT = [("name", "t23"), ("unit", "t8")]
HB = [("number", "i2"), ("id", "i2"), ("bit_order_in_actual_values", "i2"), ("bit_order_in_data_archive_record", "i2"),
      ("bit_order_in_binary_archive_record", "i2"), ("bit_control", "i1"), ("in_binary_archive", ("bit", 0x01)), ("in_data_archive", ("bit", 0x02))]
ACTIVE = [("active_indicator", ("bit", 0x40))]
LOG = [("action_during_change", "i1"), ("text_log_0", "t13"), ("text_log_1", "t13")]
DEC = [("decimals", "i1")]
DM = [("address_in_daily_archive_record", "i2"), ("address_in_monthly_archive_record", "i2")]
BILL = DM + [("address_in_billing_archive_record", "i2")]
ERR = [("error_bit_order_in_actual_values", "i2"), ("error_bit_order_in_binary_archive", "i2"), ("error_bit_order_in_data_archive", "i2")]
ERR_REC = [("error_bit_order_in_actual_values", "i2"), ("error_bit_order_in_binary_archive_record", "i2"), ("error_bit_order_in_data_archive_record", "i2")]
NO_ERR = [(n, "none") for n, _ in ERR_REC]
DIGIT = [("digit", "d")]


def b1(*names):
    return [(n, "i1") for n in names]


_STAT = H + METRO + UNIT + [("digit", "g"), ("offset", "f")] + b1("number_of_primary_quantity", "statistics_type") + DM
_CSTAT = H + METRO + UNIT + DIGIT + b1("type_of_primary_quantity", "number_of_primary_quantity", "statistics_type") + DM
_COUNTER = H + FACTORY + METRO + [("accept_counting_direction", ("bit", 0x40))] + UNIT + DIGIT + [("serial_number_of_gas_meter", "i4")] + ERR + BILL + [("serial_number_of_gas_meter_text", "t17")]
_ERRCOUNTER = H + FACTORY + METRO + UNIT + DIGIT + b1("number_of_primary_counter") + BILL
_COMP = H + METRO + NAME + b1("number_of_conversion_coefficient") + DM
_TARIFF = H + FACTORY + METRO + UNIT + DIGIT + b1("number_of_primary_counter", "tariff") + BILL
_DIFF = H + DOUBLE + METRO + UNIT + DIGIT + b1("number_of_primary_counter") + BILL
_ENERGY = H + FACTORY + METRO + UNIT + b1("number_of_standard_counter", "number_of_calorific_value", "number_of_conversion") + BILL
_ALARM = HB + NAME + NO_ERR
GAS = "co2 n2 combustion_heat relative_density h2 h2s he h2o o2 ar co c1h4 c2h6 c3h8 ic4h10 nc4h10 ic5h12 nc5h12 c6h14 c7h16 c8h18 c9h20 c10h22".split()


def port(p):
    return [(p + "_speed", "i1"), (p + "_protocol", "i1"), (p + "_bit_control", "i1")]


_SYSTEM = ([("device_type", "i1"), ("serial_number", "i4"), ("firmware_version", "t5"), ("service_version", "i1"), ("certification_variant", "i1"),
            ("station_id", "t17"), ("", "i1"), ("password_for_full_access_active", ("bit", 1)), ("password_for_reading_is_on", ("bit", 2)),
            ("metrological_switch", ("bit", 4)), ("user_switch", ("bit", 8)), ("switch_function", ("field", 0x30, 4)),
            ("parameter_crc", "i2"), ("measuring_period", "i1"), ("archive_period", "i2"), ("base_pressure", "f"), ("base_temperature", "f"),
            ("compressibility_formula", "i1")]
           + [("gas_composition." + g, "f") for g in GAS]
           + [(n, "i2") for n in ("data_archive_record_length", "binary_archive_record_length", "daily_archive_record_length", "monthly_archive_record_length",
                                  "instantaneous_values_error_bit_order", "binary_archive_record_error_bit_order", "data_archive_record_error_bit_order")]
           + port("optical_port") + port("communication_port_0") + port("communication_port_1") + port("communication_port_2")
           + [("gas_day_hour", "i1"), ("fixed_barometric_pressure", "f"), ("altitude", "f"), ("", "x17"), ("status_archive_record_length", "i2"),
              ("pressure_unit_type", "i1"), ("pressure_unit_text", "t8"), ("temperature_unit_type", "i1"), ("temperature_unit_text", "t8"),
              ("altitude_unit_type", "i1"), ("altitude_unit_text", "t8"), ("gross_calorific_value_type", "i1"), ("gross_calorific_value_text", "t8"),
              ("dst_region", "i1"), ("gmt_hour_shift", "i1"), ("billing_archive_record_length", "i2"), ("conditions_for_combustion_heat", "i1"),
              ("device_variant", "i1"), ("", "x1"), ("bit_control", "i1"), ("places_for_corrected_volume_counters", "i1"), ("device_features_bits", "i1"),
              ("device_features", "h16"), ("version_metrological_part", "t5"), ("metrological_crc", "i2"), ("metrological_crc_32", "i4"), ("application_crc_32", "i4")])

_MODEM = [("number", "i1"), ("bit_control_0", "i1"), ("title", "t7"), ("modem_type", "i1"), ("initialization", "t32"), ("call_to_dispatching", "t32"),
          ("modem_hang_up", "t8"), ("special_initialization", "t80"), ("ip_address_for_registration_and_diagnostics", "ip"),
          ("ip_address_for_calling_to_dispatching", "ip"), ("registration_send_period", "i1"), ("authentication_mode", "i1"),
          ("port_for_registration", "i2"), ("port_for_calling_to_dispatching", "i2"), ("sms_call", "t32"), ("gprs_user_name", "t49"),
          ("gprs_password", "h33"), ("ip_address_for_ping", "ip"), ("ping_period", "i2"), ("transition_into_command_mode", "t8"), ("pin", "h9"),
          ("owner_sim_number", "t17")]

# class: (type number, fixed items, optional trailing items)
LAYOUTS = {
    "SystemParameters": (0, _SYSTEM, []),
    "AnalogQuantity": (30, H + METRO + [("in_fast_archive_1", ("bit", 0x20)), ("in_fast_archvie_2", ("bit", 0x40))] + UNIT
                       + [("digit", "g"), ("offset", "f"), ("lower_limit_measuring_range", "g"), ("upper_limit_measuring_range", "f"), ("serial_number_transducer", "i4")]
                       + ERR + DM + b1("samples_in_fast_archive"), DEC),
    "Binary": (31, HB + ACTIVE + NAME + ERR_REC, LOG),
    "Counter": (32, _COUNTER, DEC),
    "StandardCounter": (33, H + FACTORY + METRO + UNIT + b1("number_of_primary_counter", "number_of_conversion") + BILL, DEC),
    "FlowRate": (34, H + METRO + UNIT + ERR + DM, DEC),
    "StandardFlowRate": (35, H + METRO + UNIT + b1("number_of_primary_flow_rate", "number_of_conversion") + DM, DEC),
    "ConversionCoefficient": (36, H + METRO + NAME + b1("number_of_analog_pressure", "number_of_analog_temperature", "compressibility_calculation_method")
                              + [("default_value_pressure", "f"), ("default_value_temperature", "f"), ("alternate_value_of_compressibility", "f")] + DM, DEC),
    "ErrorCounter": (45, _ERRCOUNTER, DEC),
    "ErrorStandardCounter": (46, H + FACTORY + METRO + UNIT + b1("number_of_standard_counter") + BILL, DEC),
    "Compressibility": (47, _COMP, DEC),
    "TimeWindow": (48, HB + NAME + [("rows_in_window", "i1"), ("rows", "rows")], LOG),
    "CorrectionCounter": (49, _ERRCOUNTER, DEC),
    "DoubleCounter": (53, _COUNTER, DEC),
    "DoubleErrorCounter": (54, _ERRCOUNTER, DEC),
    "Diagnostics": (59, H + FACTORY + NAME + DM + [(n, "i4") for n in ("mask_1_of_status_archive", "mask_2_of_status_archive", "mask_1_of_alarm", "mask_2_of_alarm",
                                                                        "mask_1_of_calling_to_dispatching", "mask_2_of_calling_to_dispatching")] + b1("action_during_change"), []),
    "DeviceError": (61, _ALARM, LOG),
    "SumOfAlarms": (62, _ALARM, LOG),
    "Timer": (65, H + METRO + NAME + DM, []),
    "TariffCounter": (68, _TARIFF, DEC),
    "BaseTariffCounter": (69, H + FACTORY + METRO + UNIT + b1("number_of_base_counter", "tariff") + BILL, DEC),
    "SetPoint": (70, HB + ACTIVE + NAME + [("value_of_limit", "f")] + b1("type_of_primary_quantity", "number_of_primary_quantity"), LOG),
    "DifferenceCounter": (72, _DIFF, DEC),
    "DifferenceBaseCounter": (73, _DIFF, DEC),
    "CompressibilityZ": (74, _COMP, DEC),
    "CompressibilityZBase": (75, _COMP, DEC),
    "Energy": (77, _ENERGY, DEC),
    "ErrorEnergy": (78, _ENERGY, DEC),
    "DoubleTariffCounter": (79, _TARIFF, DEC),
    "AnalogStatistics": (80, _STAT, DEC),
    "CounterStatistics": (81, _CSTAT, []),
    "StandardCounterStatistics": (82, _CSTAT, []),
    "Statistics": (83, _STAT, DEC),
    "AnalogTimeStatistics": (84, _STAT, DEC),
    "TimeStatistics": (85, _STAT, DEC),
    "Modem": (141, _MODEM, []),
}


def size(kind, rows=0):
    if kind == "rows":
        return 10 * rows
    if kind == "none" or isinstance(kind, tuple):
        return 0
    if kind in ("f", "g", "ip"):
        return 4
    if kind == "d":
        return 8
    return int(kind[1:])


def total(items, rows=0):
    n = 0
    for _, k in items:
        n += size(k, rows)
    return n


def items_of(name, opt):
    t, fixed, tail = LAYOUTS[name]
    return fixed + (tail if opt else [])


def texts(name, opt=True):
    return [a for a, k in items_of(name, opt) if k[0] == "t" and not isinstance(k, tuple)]


def text_bytes(E, tag, n, free):
    """free: text bytes around and inside the terminators are free, otherwise printable without terminator"""
    if not free:
        return E.text(tag, n, 33, 255).encode("latin-1")
    if n < 7:
        return E.bytes(tag + " a", 1) + b"a" * (n - 3) + E.bytes(tag + " c", 2)
    k = n - 6
    return E.bytes(tag + " a", 1) + b"a" + b"\xe9" * (k // 2) + E.bytes(tag + " b", 1) + b"c\x00" + b" " * (k - k // 2) + E.bytes(tag + " c", 1)


def make(E, name, opt, rows=0, free=None, tag="", finite=False, fixed=False, flags=None):
    """bytes of an object; free: the text attribute whose bytes are free; fixed: texts are constant (these bytes, or letters); flags: the byte of flags"""
    out = b""
    for a, k in items_of(name, opt):
        n = size(k, rows)
        if not n:
            continue
        label = tag + (a or "unused %d" % len(out))
        if isinstance(k, str) and k[0] == "t":
            out = out + (b"x" * n if fixed is True else (fixed + bytes(n))[:n] if fixed is not False else text_bytes(E, label, n, a == free))
        elif k in ("f", "g", "d") and finite:
            x = E.bytes(label, n)
            # the exponent bits are not all set
            if n == 4:
                E.assume(E.any([x[3] & 0x7F != 0x7F, x[2] & 0x80 == 0]))
            else:
                E.assume(E.any([x[7] & 0x7F != 0x7F, x[6] & 0xF0 != 0xF0]))
            out = out + x
        elif flags is not None and k == "i1" and a in ("", "bit_control"):
            out = out + bytes([flags])
        elif a == "rows_in_window":
            out = out + bytes([rows])
        else:
            out = out + E.bytes(label, n)
    return out


SPACE = (9, 10, 11, 12, 13, 32)


def ref_text(data):
    end = len(data)
    for i in range(len(data) - 1, -1, -1):
        if data[i] == 0:
            end = i
            break
    body = [32 if x == 0 else x for x in data[:end]]
    i, j = 0, len(body)
    while i < j and body[i] in SPACE:
        i += 1
    while j > i and body[j - 1] in SPACE:
        j -= 1
    return bytes(body[i:j])


def unle(b):
    v = 0
    for i, x in enumerate(b):
        v = v + (x << (8 * i))
    return v


def is_text(E, v, want):
    """v is the text of the Latin-1 bytes want"""
    if not isinstance(v, str):
        return False
    got = E.run(lambda: v.encode("latin-1"))
    return got.ok and E.same(got.value, want)


def value_ok(E, v, kind, b, last, rows):
    """does the attribute value v stand for the bytes b"""
    if kind == "none":
        return v is None
    if isinstance(kind, tuple):
        if kind[0] == "bit":
            return E.any([v == 1, v == 0]) and E.same(bool(v), last & kind[1] != 0)
        return v == (last & kind[1]) >> kind[2]
    if v is None:
        return False
    if kind[0] == "i" and kind != "ip":
        return v == unle(b)
    if kind[0] == "t":
        return is_text(E, v, ref_text(b))
    if kind == "f" or kind == "d":
        return E.same(v, struct.unpack("<" + kind, b)[0])
    if kind == "g":
        x = struct.unpack("<f", b)[0]
        return E.any([E.same(v, x), E.same(v, round(x, 7))])
    if kind == "ip":
        return v == str(b[0]) + "." + str(b[1]) + "." + str(b[2]) + "." + str(b[3])
    if kind[0] == "h":
        return isinstance(v, str) and v.lower() == b.hex()
    if kind == "rows":
        return list(v) == [b[10 * i:10 * i + 10].hex() for i in range(rows)]
    raise AssertionError(kind)


def get(obj, path):
    for p in path.split("."):
        obj = getattr(obj, p)
    return obj


def check_object(E, obj, name, data, opt, rows=0, only=None):
    pos, last = 0, 0
    for a, k in items_of(name, opt):
        n = size(k, rows)
        b = data[pos:pos + n]
        if k == "i1":
            last = b[0]
        pos += n
        if a and (only is None or a == only):
            E.check(value_ok(E, get(obj, a), k, b, last, rows), "attribute " + a)
    if not opt and only is None:
        for a, _ in LAYOUTS[name][2]:
            E.check(getattr(obj, a) is None, "absent attribute " + a)
