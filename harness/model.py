"""Independent reference model of the BLF format as vblf documents and uses it.

Nothing in this module imports the library under test.  All integers are little
endian.  A *model object* is plain JSON-able data:

  {"t": KIND, "h": [header_version, flags, client_index, version, time_stamp],
   "v": {field: value, ...}, <tail keys>, "tz": trailing zero bytes}
  {"t": "OPAQUE", "code": n, "hs": n, "hv": n, "body": payload}

A payload is bytes or ["pat", bytes, n] (pattern repeated to n bytes); a text is
str or ["pat", str, n].
"""
import struct
import zlib

SIG = b"LOBJ"
FILE_SIG = b"LOGG"
FILE_HEADER = 144
BASE = 16
HDR = 32
CONTAINER = 32

# ---------------------------------------------------------------- constants
_OBJ = """UNKNOWN CAN_MESSAGE CAN_ERROR CAN_OVERLOAD CAN_STATISTIC APP_TRIGGER ENV_INTEGER
ENV_DOUBLE ENV_STRING ENV_DATA LOG_CONTAINER LIN_MESSAGE LIN_CRC_ERROR LIN_DLC_INFO
LIN_RCV_ERROR LIN_SND_ERROR LIN_SLV_TIMEOUT LIN_SCHED_MODCH LIN_SYN_ERROR LIN_BAUDRATE
LIN_SLEEP LIN_WAKEUP MOST_SPY MOST_CTRL MOST_LIGHTLOCK MOST_STATISTIC reserved_1 reserved_2
reserved_3 FLEXRAY_DATA FLEXRAY_SYNC CAN_DRIVER_ERROR MOST_PKT MOST_PKT2 MOST_HWMODE MOST_REG
MOST_GENREG MOST_NETSTATE MOST_DATALOST MOST_TRIGGER FLEXRAY_CYCLE FLEXRAY_MESSAGE
LIN_CHECKSUM_INFO LIN_SPIKE_EVENT CAN_DRIVER_SYNC FLEXRAY_STATUS GPS_EVENT FR_ERROR FR_STATUS
FR_STARTCYCLE FR_RCVMESSAGE REALTIMECLOCK AVAILABLE2 AVAILABLE3 LIN_STATISTIC J1708_MESSAGE
J1708_VIRTUAL_MSG LIN_MESSAGE2 LIN_SND_ERROR2 LIN_SYN_ERROR2 LIN_CRC_ERROR2 LIN_RCV_ERROR2
LIN_WAKEUP2 LIN_SPIKE_EVENT2 LIN_LONG_DOM_SIG APP_TEXT FR_RCVMESSAGE_EX MOST_STATISTICEX
MOST_TXLIGHT MOST_ALLOCTAB MOST_STRESS ETHERNET_FRAME SYS_VARIABLE CAN_ERROR_EXT
CAN_DRIVER_ERROR_EXT LIN_LONG_DOM_SIG2 MOST_150_MESSAGE MOST_150_PKT MOST_ETHERNET_PKT
MOST_150_MESSAGE_FRAGMENT MOST_150_PKT_FRAGMENT MOST_ETHERNET_PKT_FRAGMENT MOST_SYSTEM_EVENT
MOST_150_ALLOCTAB MOST_50_MESSAGE MOST_50_PKT CAN_MESSAGE2 LIN_UNEXPECTED_WAKEUP
LIN_SHORT_OR_SLOW_RESPONSE LIN_DISTURBANCE_EVENT SERIAL_EVENT OVERRUN_ERROR EVENT_COMMENT
WLAN_FRAME WLAN_STATISTIC MOST_ECL GLOBAL_MARKER AFDX_FRAME AFDX_STATISTIC KLINE_STATUSEVENT
CAN_FD_MESSAGE CAN_FD_MESSAGE_64 ETHERNET_RX_ERROR ETHERNET_STATUS CAN_FD_ERROR_64
LIN_SHORT_OR_SLOW_RESPONSE2 AFDX_STATUS AFDX_BUS_STATISTIC reserved_4 AFDX_ERROR_EVENT
A429_ERROR A429_STATUS A429_BUS_STATISTIC A429_MESSAGE ETHERNET_STATISTIC reserved_5 reserved_6
reserved_7 TEST_STRUCTURE DIAG_REQUEST_INTERPRETATION ETHERNET_FRAME_EX ETHERNET_FRAME_FORWARDED
ETHERNET_ERROR_EX ETHERNET_ERROR_FORWARDED FUNCTION_BUS DATA_LOST_BEGIN DATA_LOST_END
WATER_MARK_EVENT TRIGGER_CONDITION""".split()
assert len(_OBJ) == 129
OBJ_CODES = {name: i for i, name in enumerate(_OBJ)}
OBJ_NAMES = dict(enumerate(_OBJ))

ENUMS = {
    "ObjType": OBJ_CODES,
    "AppId": {
        "UNKNOWN": 0, "CANALYZER": 1, "CANOE": 2, "CANSTRESS": 3, "CANLOG": 4, "CANAPE": 5,
        "CANCASEXLLOG": 6, "VLCONFIG": 7, "PORSCHELOGGER": 200,
    },
    "Compression": {"NONE": 0, "SPEED": 1, "DEFAULT": 6, "MAX": 9},
    "SysVarType": {
        "DOUBLE": 1, "LONG": 2, "STRING": 3, "DOUBLEARRAY": 4, "LONGARRAY": 5, "LONGLONG": 6,
        "BYTEARRAY": 7,
    },
    "BusType": {
        "CAN": 1, "LIN": 5, "MOST": 6, "FLEXRAY": 7, "J1708": 9, "ETHERNET": 10, "WLAN": 13,
        "AFDX": 14,
    },
    "AppTextSource": {
        "MEASUREMENTCOMMENT": 0, "DBCHANNELINFO": 1, "METADATA": 2, "ATTACHMENT": 3,
        "TRACELINE": 4,
    },
    "FunctionBusType": {"UNDEFINED": 0, "SIGNAL": 1, "SERVICE_FUNCTION": 2, "STATE": 3},
    "TriggerConditionStatus": {"UNKNOWN": 0, "START": 1, "STOP": 2, "STARTSTOP": 3},
}
FLAGS = {
    "ObjFlags": {"TIME_TEN_MICS": 1, "TIME_ONE_NANS": 2},
    "TriggerFlag": {"SINGLE_TRIGGER": 0, "LOGGING_START": 1, "LOGGING_STOP": 2},
    "CanFdFlags": {
        "NERR": 0x4, "HIGH_VOLTAGE_WAKE_UP": 0x8, "REMOTE_FRAME": 0x10, "TX_ACKNOWLEDGE": 0x40,
        "TX_REQUEST": 0x80, "SRR": 0x200, "R0": 0x400, "R1": 0x800, "FDF": 0x1000, "BRS": 0x2000,
        "ESI": 0x4000, "FRAME_PART_OF_BURST": 0x20000,
        "SINGLE_SHOT_MODE_NOT_TRANSMITTED": 0x40000, "SINGLE_SHOT_MODE_REASON": 0x80000,
    },
}

CP1252 = "".join(
    chr(c) if c < 0x80 or c >= 0xA0 else bytes([c]).decode("cp1252")
    for c in range(256)
    if c not in (0x81, 0x8D, 0x8F, 0x90, 0x9D)
)


# ---------------------------------------------------------------- payloads
def B(x):
    """Expand a payload."""
    if isinstance(x, (list, tuple)):
        _, pat, n = x
        if not pat:
            pat = b"\0"
        return (pat * (n // len(pat) + 1))[:n]
    return x


def T(x):
    """Expand a text."""
    if isinstance(x, (list, tuple)):
        _, pat, n = x
        if not pat:
            pat = "x"
        return (pat * (n // len(pat) + 1))[:n]
    return x


# ---------------------------------------------------------------- kinds
# field: (path, code, enum/flag name or None);  codes: B H I Q h d Ns NI NQ
KINDS = {}


class Kind:
    def __init__(self, name, mod, cls, fields, tail=None, derived=(), hdr="obj", family="", **kw):
        self.name, self.mod, self.cls, self.hdr, self.family = name, mod, cls, hdr, family
        self.code = OBJ_CODES[name]
        self.fields = []
        for f in fields.split():
            parts = f.split(":")
            self.fields.append((parts[0], parts[1], parts[2] if len(parts) > 2 else None))
        self.derived = set(derived)
        self.tail = tail
        self.size = sum(csize(c) for _, c, _ in self.fields)
        self.opt = kw
        KINDS[name] = self

    def __repr__(self):
        return self.name


def csize(code):
    if code[:-1].isdigit():
        n = int(code[:-1])
        return n * {"s": 1, "I": 4, "Q": 8}[code[-1]]
    return {"B": 1, "H": 2, "I": 4, "Q": 8, "h": 2, "d": 8}[code]


def cpack(code, v):
    if code == "d":
        # v is the 64-bit pattern
        return v.to_bytes(8, "little")
    if code == "h":
        return v.to_bytes(2, "little", signed=True)
    if code[:-1].isdigit():
        if code[-1] == "s":
            assert len(v) == int(code[:-1]), (code, v)
            return bytes(v)
        w = {"I": 4, "Q": 8}[code[-1]]
        assert len(v) == int(code[:-1])
        return b"".join(x.to_bytes(w, "little") for x in v)
    return v.to_bytes(csize(code), "little")


def cunpack(code, b):
    if code == "h":
        return int.from_bytes(b, "little", signed=True)
    if code[:-1].isdigit():
        if code[-1] == "s":
            return bytes(b)
        w = {"I": 4, "Q": 8}[code[-1]]
        return [int.from_bytes(b[i : i + w], "little") for i in range(0, len(b), w)]
    return int.from_bytes(b, "little")


# ---- tails: fn(o, v) -> (tail bytes, [(attr, code-kind, value)]); v is filled in
def _nul_text(o, v):
    raw = T(o["text"]).encode("cp1252")
    if o.get("term", True):
        raw += b"\0"
    v["text_length"] = len(raw)
    return raw, [("text", "str", T(o["text"]))]


def _strs(enc, *names):
    def tail(o, v):
        out, attrs = b"", []
        for n, ln in names:
            s = T(o[n])
            raw = s.encode(enc)
            v[ln] = len(raw)
            out += raw
            attrs.append((n, "str", s))
        return out, attrs

    return tail


def _name_data(o, v):
    n, d = T(o["name"]).encode("cp1252"), B(o["data"])
    v["name_length"], v["data_length"] = len(n), len(d)
    return n + d, [("name", "str", T(o["name"])), ("data", "bytes", d)]


def _counted(attr, count):
    def tail(o, v):
        d = B(o["data"])
        v[count] = len(d) + o.get("miss", 0)
        return d, [(attr, "bytes", d)]

    return tail


def _fd_ext(fixed):
    """data followed by optional extension; o["ext"] in None/'room'/'noroom'/'beyond'."""

    def tail(o, v):
        d = B(o["data"])
        gap = o.get("gap", 0)
        end = HDR + fixed + len(d) + gap
        mode = o.get("ext")
        arb, dat = 0, 0
        body = d + b"\0" * gap
        if mode is None:
            v["ext_data_offset"] = 0
            body = d
        elif mode == "room":
            v["ext_data_offset"] = end
            arb, dat = o["btr"]
            body += struct.pack("<II", arb, dat)
        elif mode == "noroom":
            v["ext_data_offset"] = end
        else:  # beyond the end of the object
            v["ext_data_offset"] = end + 1 + o.get("over", 0)
            body = d
        if fixed == 44:
            v["valid_data_bytes"] = len(d) + o.get("miss", 0)
        return body, [
            ("data", "bytes", d), ("btr_ext_arb", "int", arb), ("btr_ext_data", "int", dat),
        ]

    return tail


Kind("CAN_MESSAGE", "can", "CanMessage", "channel:H flags:B dlc:B frame_id:I data:8s", family="can")
Kind("CAN_MESSAGE2", "can", "CanMessage2",
     "channel:H flags:B dlc:B frame_id:I data:8s frame_length:I bit_count:B reserved1:B reserved2:H",
     family="can")
Kind("CAN_FD_MESSAGE", "can", "CanFdMessage",
     "channel:H flags:B dlc:B frame_id:I frame_length:I arb_bit_count:B canfd_flags:B:CanFdFlags"
     " valid_data_bytes:B reserved1:B reserved2:I data:64s reserved3:I", family="can")
Kind("CAN_FD_MESSAGE_64", "can", "CanFdMessage64",
     "channel:B dlc:B valid_data_bytes:B tx_count:B frame_id:I frame_length:I flags:I:CanFdFlags"
     " btr_cfg_arb:I btr_cfg_data:I time_offset_brs_ns:I time_offset_crc_del_ns:I bit_count:H"
     " dir:B ext_data_offset:B crc:I", _fd_ext(40), ["ext_data_offset"], family="can")
Kind("CAN_STATISTIC", "can", "CanDriverStatistic",
     "channel:H bus_load:H standard_data_frames:I extended_data_frames:I standard_remote_frames:I"
     " extended_remote_frames:I error_frames:I overload_frames:I reserved:I", family="can")
Kind("CAN_DRIVER_ERROR", "can", "CanDriverError", "channel:H tx_errors:B rx_errors:B error_code:I",
     family="can")
Kind("CAN_DRIVER_ERROR_EXT", "can", "CanDriverErrorExt",
     "channel:H tx_errors:B rx_errors:B error_code:I flags:I state:B reserved1:B reserved2:H"
     " reserved3:4I", family="can")
Kind("CAN_ERROR", "can", "CanErrorFrame", "channel:H length:H reserved:I", family="can")
Kind("CAN_ERROR_EXT", "can", "CanErrorFrameExt",
     "channel:H length:H flags:I ecc:B position:B dlc:B reserved1:B frame_length_in_ns:I frame_id:I"
     " flags_ext:H reserved2:H data:8s", family="can")
Kind("CAN_FD_ERROR_64", "can", "CanFdErrorFrame64",
     "channel:B dlc:B valid_data_bytes:B ecc:B flags:H error_code_ext:H ext_flags:H"
     " ext_data_offset:B reserved1:B frame_id:I frame_length:I btr_cfg_arb:I btr_cfg_data:I"
     " time_offset_brs_ns:I time_offset_crc_del_ns:I crc:I error_position:H reserved2:H",
     _fd_ext(44), ["ext_data_offset", "valid_data_bytes"], family="can")
Kind("CAN_DRIVER_SYNC", "can", "CanDriverHwSync", "channel:H flags:B reserved1:B reserved2:I",
     family="can")
Kind("CAN_OVERLOAD", "can", "CanOverloadFrame", "channel:H reserved1:H reserved2:I", family="can")

Kind("LIN_MESSAGE", "lin", "LinMessage",
     "channel:H id:B dlc:B data:8s fsm_id:B fsm_state:B header_time:B full_time:B crc:H dir:B"
     " reserved:5s", family="bus")
_ev = "lin_timestamp_event."
_de = _ev + "lin_msg_descr_event."
_sy = _de + "lin_synch_field_event."
_bu = _sy + "lin_bus_event."
Kind("LIN_MESSAGE2", "lin", "LinMessage2",
     f"{_bu}sof:Q {_bu}event_baudrate:I {_bu}channel:H {_bu}reserved:2s {_sy}synch_break_length:Q"
     f" {_sy}synch_del_length:Q {_de}supplier_id:H {_de}message_id:H {_de}nad:B {_de}id:B {_de}dlc:B"
     f" {_de}checksum_model:B {_ev}databyte_timestamps:9Q data:8s crc:H direction:B simulated:B"
     " is_etf:B etf_assoc_index:B etf_assoc_etf_id:B fsm_id:B fsm_state:B reserved:3s"
     " resp_baudrate:I exact_header_baudrate:d early_stopbit_offset:I"
     " early_stopbit_offset_response:I", family="bus")
LIN2_V1, LIN2_V2, LIN2_V3 = 132, 136, 152
assert KINDS["LIN_MESSAGE2"].size == LIN2_V3
Kind("FR_RCVMESSAGE_EX", "flexray", "FlexrayVFrReceiveMsgEx",
     "channel:H version:H channel_mask:H dir_flags:H client_index:I cluster_no:I frame_id:H"
     " header_crc1:H header_crc2:H byte_count:H data_count:H cycle:H tag:I data:I frame_flags:I"
     " app_parameter:I frame_crc:I frame_length_ns:I frame_id1:H pdu_offset:H blf_log_mask:H"
     " reserved:26s", _counted("data_bytes", "data_count"), ["data_count"], family="bus")
Kind("ETHERNET_FRAME_EX", "ethernet", "EthernetFrameEx",
     "struct_length:H flags:H channel:H hardware_channel:H frame_duration:Q frame_checksum:I dir:H"
     " frame_length:H frame_handle:I reserved:I", _counted("frame_data", "frame_length"),
     ["frame_length"], family="bus")
Kind("ETHERNET_STATISTIC", "ethernet", "EthernetStatistic",
     "channel:H reserved_1:H reserved_2:I rcv_ok_hw:Q xmit_ok_hw:Q rcv_error_hw:Q xmit_error_hw:Q"
     " rcv_bytes_hw:Q xmit_bytes_hw:Q rcv_no_buffer_hw:Q sqi:h hardware_channel:H reserved_3:I",
     family="bus")
Kind("DIAG_REQUEST_INTERPRETATION", "tp_diag", "DiagRequestInterpretation",
     "diag_description_handle:I diag_variant_handle:I diag_service_handle:I ecu_qualifier_length:I"
     " variant_qualifier_length:I service_qualifier_length:I",
     _strs("utf-8", ("ecu_qualifier", "ecu_qualifier_length"),
           ("variant_qualifier", "variant_qualifier_length"),
           ("service_qualifier", "service_qualifier_length")),
     ["ecu_qualifier_length", "variant_qualifier_length", "service_qualifier_length"], family="bus")

Kind("APP_TEXT", "general", "AppText",
     "source:I:AppTextSource reserved1:I text_length:I reserved2:I", _nul_text, ["text_length"],
     family="gen")
Kind("APP_TRIGGER", "general", "AppTrigger",
     "pre_trigger_time:Q post_trigger_time:Q channel:H flags:H:TriggerFlag app_specific:I",
     family="gen")
for _n in ("ENV_INTEGER", "ENV_DOUBLE", "ENV_STRING", "ENV_DATA"):
    Kind(_n, "general", "EnvironmentVariable", "name_length:I data_length:I reserved:Q",
         _name_data, ["name_length", "data_length"], family="gen")
Kind("SYS_VARIABLE", "general", "SystemVariable",
     "type:I:SysVarType representation:I reserved1:Q name_length:I data_length:I reserved2:Q",
     _name_data, ["name_length", "data_length"], family="gen")
Kind("REALTIMECLOCK", "general", "RealTimeClock", "time:Q logging_offset:Q", family="gen")
Kind("OVERRUN_ERROR", "general", "DriverOverrun", "bus_type:I:BusType channel:H reserved:H",
     family="gen")
Kind("EVENT_COMMENT", "general", "EventComment",
     "commented_event_type:I text_length:I reserved:Q",
     _strs("cp1252", ("text", "text_length")), ["text_length"], family="gen")
Kind("GLOBAL_MARKER", "general", "GlobalMarker",
     "commented_event_type:I foreground_color:I background_color:I is_relocatable:B reserved1:B"
     " reserved2:H group_name_length:I marker_name_length:I description_length:I reserved3:I"
     " reserved4:Q",
     _strs("cp1252", ("group_name", "group_name_length"), ("marker_name", "marker_name_length"),
           ("description", "description_length")),
     ["group_name_length", "marker_name_length", "description_length"], family="gen")
Kind("FUNCTION_BUS", "general", "FunctionBus",
     "object_type:I:FunctionBusType ve_type:I name_length:I data_length:I", _name_data,
     ["name_length", "data_length"], hdr="var", family="gen")
Kind("TRIGGER_CONDITION", "general", "TriggerCondition",
     "state:I:TriggerConditionStatus trigger_block_name_length:I trigger_condition_length:I",
     _strs("cp1252", ("trigger_block_name", "trigger_block_name_length"),
           ("trigger_condition", "trigger_condition_length")),
     ["trigger_block_name_length", "trigger_condition_length"], hdr="var", family="gen")

# kinds whose declared size may exceed their content by zero bytes
ZERO_TAIL_OK = {
    "CAN_FD_MESSAGE_64", "CAN_FD_ERROR_64", "FR_RCVMESSAGE_EX", "ETHERNET_FRAME_EX",
    "ETHERNET_STATISTIC", "DIAG_REQUEST_INTERPRETATION", "APP_TEXT", "ENV_INTEGER", "ENV_DOUBLE",
    "ENV_STRING", "ENV_DATA", "SYS_VARIABLE", "EVENT_COMMENT", "LIN_MESSAGE2",
}
IMPLEMENTED = {k.code: k.cls for k in KINDS.values()}
STRINGS = {
    "APP_TEXT": ["text"], "EVENT_COMMENT": ["text"], "SYS_VARIABLE": ["name"],
    "ENV_INTEGER": ["name"], "ENV_DOUBLE": ["name"], "ENV_STRING": ["name"], "ENV_DATA": ["name"],
    "FUNCTION_BUS": ["name"], "GLOBAL_MARKER": ["group_name", "marker_name", "description"],
    "TRIGGER_CONDITION": ["trigger_block_name", "trigger_condition"],
    "DIAG_REQUEST_INTERPRETATION": ["ecu_qualifier", "variant_qualifier", "service_qualifier"],
}
DATA_TAIL = {
    "SYS_VARIABLE", "ENV_INTEGER", "ENV_DOUBLE", "ENV_STRING", "ENV_DATA", "FUNCTION_BUS",
    "ETHERNET_FRAME_EX", "FR_RCVMESSAGE_EX", "CAN_FD_MESSAGE_64", "CAN_FD_ERROR_64",
}


def base_header(code, size, hs=HDR, hv=1):
    return SIG + struct.pack("<HHII", hs, hv, size, code)


def object_header(code, size, h):
    hv, flags, ci, ver, ts = h
    return base_header(code, size, HDR, hv) + struct.pack("<IHHQ", flags, ci, ver, ts)


def resolve(o):
    """-> (kind, fixed values incl. derived, tail bytes, tail attrs, revision size)"""
    k = KINDS[o["t"]]
    v = dict(o["v"])
    tail, attrs = b"", []
    if k.tail:
        tail, attrs = k.tail(o, v)
    size = k.size
    if o["t"] == "LIN_MESSAGE2":
        size = {1: LIN2_V1, 2: LIN2_V2, 3: LIN2_V3}[o.get("rev", 3)]
        # fields of later revisions read as zero
        pos = 0
        for name, code, _ in k.fields:
            if pos >= size:
                v[name] = 0
            pos += csize(code)
    return k, v, tail + b"\0" * o.get("tz", 0), attrs, size


def encode(o):
    if o["t"] == "OPAQUE":
        body = B(o["body"])
        return base_header(o["code"], BASE + len(body), o["hs"], o["hv"]) + body
    k, v, tail, _, size = resolve(o)
    fixed = b"".join(cpack(c, v[n]) for n, c, _ in k.fields)[:size]
    total = HDR + len(fixed) + len(tail)
    return object_header(k.code, total, o["h"]) + fixed + tail


def osize(o):
    return len(encode(o))


def expected_class(o):
    if o["t"] == "OPAQUE":
        return "NotImplementedObject"
    return KINDS[o["t"]].cls


class Mismatch(Exception):
    """The library's answer differs from the model's."""


def _get(obj, path):
    for p in path.split("."):
        obj = getattr(obj, p)
    return obj


def check_value(where, got, code, enum, want):
    if code == "d":
        if not isinstance(got, (int, float)) or isinstance(got, bool):
            raise Mismatch(f"{where}: {got!r} is not a number")
        bits = int.from_bytes(struct.pack("<d", got), "little")
        if bits != want:
            raise Mismatch(f"{where}: got {bits:#x} want {want:#x}")
        return
    if code[:-1].isdigit() and code[-1] in "IQ":
        if list(got) != list(want):
            raise Mismatch(f"{where}: got {got!r} want {want!r}")
        return
    if code == "str":
        if type(got) is not str or got != want:
            raise Mismatch(f"{where}: got {_short(got)} want {_short(want)}")
        return
    if code == "bytes" or code[-1] == "s":
        if not isinstance(got, (bytes, bytearray)) or bytes(got) != want:
            raise Mismatch(f"{where}: got {_short(got)} want {_short(want)}")
        return
    if got != want or isinstance(got, float):
        raise Mismatch(f"{where}: got {got!r} want {want!r}")
    if enum in ENUMS:
        check_enum(where, got, enum, want)
    elif enum in FLAGS and type(got).__name__ != enum:
        raise Mismatch(f"{where}: {got!r} is not {enum}")


def check_enum(where, got, enum, want):
    names = [n for n, c in ENUMS[enum].items() if c == want]
    if type(got).__name__ != enum or not names or got.name != names[0]:
        raise Mismatch(f"{where}: got {got!r}, want {enum}.{names} for {want}")


def _short(x):
    r = repr(x)
    return r if len(r) < 120 else f"{r[:80]}...({len(x)} long)"


def check_base(b, code, size, hs, hv):
    check_value("signature", b.signature, "4s", None, SIG)
    check_value("header_size", b.header_size, "H", None, hs)
    check_value("header_version", b.header_version, "H", None, hv)
    check_value("object_size", b.object_size, "I", None, size)
    want = code if code in OBJ_NAMES else 0
    check_enum("object_type", b.object_type, "ObjType", want)


def check_object(obj, o, total=None):
    """Compare every attribute of a decoded library object with the model object."""
    cls = expected_class(o)
    if type(obj).__name__ != cls:
        raise Mismatch(f"{o['t']}: delivered as {type(obj).__name__}, want {cls}")
    if o["t"] == "OPAQUE":
        raw = encode(o)
        check_base(obj.header.base, o["code"], len(raw), o["hs"], o["hv"])
        check_value("raw bytes", obj.buffer, "bytes", None, raw)
        return
    k, v, tail, attrs, size = resolve(o)
    if total is None:
        total = HDR + size + len(tail)
    hv, flags, ci, ver, ts = o["h"]
    h = obj.header
    check_base(h.base, k.code, total, HDR, hv)
    check_value("object_flags", h.object_flags, "I", "ObjFlags", flags)
    check_value("client_index", h.object_static_size if k.hdr == "var" else h.client_index, "H",
                None, ci)
    check_value("object_version", h.object_version, "H", None, ver)
    check_value("object_time_stamp", h.object_time_stamp, "Q", None, ts)
    for n, c, e in k.fields:
        check_value(f"{o['t']}.{n}", _get(obj, n), c, e, v[n])
    for n, c, want in attrs:
        check_value(f"{o['t']}.{n}", getattr(obj, n), c, None, want)


# ---------------------------------------------------------------- file model
def file_header(level=0, api=0x3E4630, app=0, major=0, minor=3, fsize=144, usize=144, count=0,
                build=0, start=(2024, 11, 3, 20, 15, 20, 24, 850),
                last=(2024, 11, 3, 20, 15, 23, 50, 712), restore=0, reserved=bytes(64), size=144):
    return (
        FILE_SIG + struct.pack("<IIBBBBQQII", size, api, app, level, major, minor, fsize, usize,
                               count, build)
        + struct.pack("<8H", *start) + struct.pack("<8H", *last)
        + struct.pack("<Q", restore) + reserved
    )


def parse_file_header(b):
    if len(b) < FILE_HEADER or b[:4] != FILE_SIG:
        raise Mismatch("file header missing")
    f = struct.unpack("<IIBBBBQQII8H8HQ64s", b[4:FILE_HEADER])
    return {
        "size": f[0], "api": f[1], "app": f[2], "level": f[3], "major": f[4], "minor": f[5],
        "fsize": f[6], "usize": f[7], "count": f[8], "build": f[9], "start": f[10:18],
        "last": f[18:26], "restore": f[26], "reserved": f[27],
    }


def container(payload, method, usize, hs=16, hv=1, spare=(0, 0, 0)):
    n = CONTAINER + len(payload)
    a, b, c = spare
    return base_header(10, n, hs, hv) + struct.pack("<HHIII", method, a, b, usize & 0xFFFFFFFF, c) + payload


def container_header(n):
    """Of a container with *n* stored bytes."""
    return base_header(10, CONTAINER + n, 16, 1) + struct.pack("<HHIII", 0, 0, 0, n & 0xFFFFFFFF, 0)


def deflate(data, level, how=None):
    """A zlib stream: as zlib makes it, or with its own window size, strategy and flush points."""
    if not how:
        return zlib.compress(data, level)
    wbits, memory, strategy, step, flush = how
    z = zlib.compressobj(level, zlib.DEFLATED, wbits, memory, strategy)
    out = b""
    for i in range(0, len(data), step or len(data) + 1):
        out += z.compress(data[i : i + (step or len(data))])
        if step:
            out += z.flush((zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_BLOCK)[flush])
    return out + z.flush()


class Written:
    """Strict parse of a file produced by the writer."""

    def __init__(self, data):
        self.data = data
        self.header = parse_file_header(data)
        self.containers = []  # (offset, method, declared usize, stored bytes, end)
        pos = FILE_HEADER
        while pos < len(data):
            start = pos
            while pos < len(data) and data[pos] == 0 and pos - start < 8:
                pos += 1
            if pos - start >= 8:
                raise Mismatch(f"{pos - start}+ filler bytes before container at {pos}")
            if data[pos : pos + 4] != SIG:
                raise Mismatch(f"offset {pos}: neither filler nor a container: {data[pos:pos+16]!r}")
            if len(data) - pos < CONTAINER:
                raise Mismatch(f"offset {pos}: incomplete container header")
            _, hs, hv, size, code, method, _r1, _r2, usize, _r3 = struct.unpack_from(
                "<4sHHIIHHIII", data, pos)
            if code != 10:
                raise Mismatch(f"offset {pos}: object of type {code} outside a container")
            if size < CONTAINER or pos + size > len(data):
                raise Mismatch(f"offset {pos}: container size {size} does not fit the file")
            self.containers.append((pos, method, usize, data[pos + CONTAINER : pos + size], pos + size))
            pos += size

    def payloads(self):
        level = self.header["level"]
        out = []
        for off, _m, _u, stored, _e in self.containers:
            if level > 0:
                try:
                    d = zlib.decompressobj()
                    raw = d.decompress(stored) + d.flush()
                except zlib.error as e:
                    raise Mismatch(f"container at {off}: not a zlib stream: {e}") from None
                if not d.eof or d.unused_data:
                    raise Mismatch(f"container at {off}: incomplete or trailing zlib data")
            else:
                raw = stored
            out.append(raw)
        return out

    def stream(self):
        return b"".join(self.payloads())


def match_stream(stream, raws, aligned=True, max_fill=7, trailing=7):
    """stream must be the encoded objects separated by zero filler."""
    pos = 0
    for i, raw in enumerate(raws):
        start = pos
        while pos < len(stream) and stream[pos] == 0 and pos - start <= max_fill:
            pos += 1
        if stream[pos : pos + len(raw)] != raw:
            raise Mismatch(
                f"object {i} of {len(raws)} (size {len(raw)}) not found at stream offset {pos}:"
                f" {stream[pos:pos+24]!r}")
        if pos - start > max_fill:
            raise Mismatch(f"{pos - start} filler bytes before object {i}")
        if aligned and pos % 8:
            raise Mismatch(f"object {i} starts at unaligned stream offset {pos}")
        pos += len(raw)
    rest = stream[pos:]
    if len(rest) > trailing or rest.strip(b"\0"):
        raise Mismatch(f"{len(rest)} unexpected bytes after the last object: {rest[:24]!r}")


def clean_filler(b):
    """Filler that can never form an object signature, not even across joins."""
    return b.replace(b"J", b"K")


def build_file(spec):
    """Independent file builder.

    spec = {"level": 0..255, "hdr": {..file_header kwargs..} (without: mostly the true statistics),
            "segs": [ {"k": "run", "objs": [...], "fill": [payload,...], "end": payload,
                       "cuts": [..], "store": [..], "pad": [payload,...], "lv": n, "hs": n, "hv": n,
                       "spare": [unused header parts], "z": [wbits, memory, strategy, step, flush]}
                    | {"k": "bare", "objs": [...], "fill": [...]} ],
            "tail": payload}
    cuts are positions in the run's stream (taken modulo its length + 1).
    store per container: 0 = follow the file's level, 1 = stored verbatim (method 0).
    -> (bytes, [model objects in order], [offset at which object i is complete])
    """
    level = spec.get("level", 0)
    out = bytearray(file_header(level=level, **spec.get("hdr", {})))
    objs, ready = [], []
    for seg in spec["segs"]:
        fill = [B(f) for f in seg.get("fill", [])]
        if seg["k"] == "bare":
            for i, o in enumerate(seg["objs"]):
                out += clean_filler(fill[i] if i < len(fill) else b"")
                out += encode(o)
                objs.append(o)
                ready.append(len(out))
            continue
        stream, ends = bytearray(), []
        for i, o in enumerate(seg["objs"]):
            f = fill[i] if i < len(fill) else b""
            stream += clean_filler(f)
            stream += encode(o)
            ends.append(len(stream))
        endfill = clean_filler(B(seg.get("end", b"")))
        stream += endfill
        n = len(stream)
        cuts = sorted(c % (n + 1) for c in seg.get("cuts", []))
        bounds = [0, *cuts, n]
        pads = [B(p) for p in seg.get("pad", [])]
        store = seg.get("store", [])
        cend = []
        for i in range(len(bounds) - 1):
            chunk = bytes(stream[bounds[i] : bounds[i + 1]])
            out += clean_filler(pads[i] if i < len(pads) else b"")
            verbatim = level == 0 or (i < len(store) and store[i])
            if verbatim:
                # older files mark everything with method 2 when the level is 0
                method = 2 if level == 0 and i < len(store) and store[i] else 0
                stored = chunk
            else:
                method, stored = 2, deflate(chunk, seg.get("lv", min(level, 9)), seg.get("z"))
            out += container(stored, method, len(chunk), seg.get("hs", 16), seg.get("hv", 1), seg.get("spare", (0, 0, 0)))
            cend.append((bounds[i + 1], len(out)))
        j = 0
        for o, e in zip(seg["objs"], ends):
            while cend[j][0] < e:
                j += 1
            objs.append(o)
            ready.append(cend[j][1])
    out += clean_filler(B(spec.get("tail", b"")))
    if "hdr" not in spec and len(out) % 5:  # otherwise as after a recording that was cut off
        out[:FILE_HEADER] = file_header(level=level, fsize=len(out), count=len(objs),
                                        usize=FILE_HEADER + sum(map(osize, objs)))
    return bytes(out), objs, ready
