"""Shared by C05, C06, C07: decode and encode one object against the independent layout."""
import functools
import random

from hypothesis import strategies as st

from .. import gen, model as m
from ..core import Search, Sweep, expect, fail, lib
from ..vb import construct, decode, has_nan, klass


def check_rest(case, rec):
    o, rest = case["o"], m.B(case["rest"])
    raw = m.encode(o)[: -len(rest)] + rest
    with lib(f"{o['t']}: decoding with {len(rest)} further bytes"):
        m.check_object(klass(o).unpack(raw), o)
    rec.label(o["t"])
    rec.hit("bytes behind the known layout")


def check_codec(o, rec):
    if "rest" in o:
        return check_rest(o, rec)
    raw = m.encode(o)
    t = o["t"]
    with lib(f"{t}: decoding"):
        obj = decode(o)
        m.check_object(obj, o)
    with lib(f"{t}: encoding the decoded object"):
        back = obj.pack()
    expect(isinstance(back, (bytes, bytearray)), f"{t}: pack gave {type(back)}")
    if bytes(back) != raw:
        fail(f"{t}: encoding the decoded object differs {diff(raw, back)}")
    with lib(f"{t}: encoding a newly constructed object"):
        made = construct(o)
        mine = made.pack()
    if bytes(mine) != raw:
        fail(f"{t}: encoding a newly constructed object differs {diff(raw, mine)}")
    with lib(f"{t}: comparing"):
        same = has_nan(o) or (made == obj and not made != obj)
    expect(same, lambda: f"{t}: constructed and decoded objects differ: {str(made)[:300]} / {str(obj)[:300]}")
    with lib(f"{t}: decoding again"):
        m.check_object(type(obj).unpack(bytes(mine)), o)
    rec.label(t)
    if any(x not in (0, b"\0" * 8, [0] * 9) for x in o["v"].values()):
        rec.hit()
    for k in ("ext", "rev", "tz", "miss", "gap", "over"):
        if o.get(k):
            rec.label(f"{k}={o[k]}" if k in ("ext", "rev") else k)
    if len(raw) > 65536:
        rec.hit("over 64 KiB")


def diff(want, got):
    if len(want) != len(got):
        return f"(length {len(got)}, want {len(want)})"
    i = next((i for i in range(len(want)) if want[i] != got[i]), len(want))
    return f"at byte {i}: {bytes(got[i:i+8]).hex()} want {bytes(want[i:i+8]).hex()}"


def blank(k):
    """Smallest object of a kind."""
    o = {"t": k.name, "h": [1, 2, 0, 0, 0], "v": gen.from_raw(k, bytes(k.size))}
    for s in m.STRINGS.get(k.name, ()):
        o[s] = ""
    if k.name in m.DATA_TAIL:
        o["data"] = b""
    return o


def ramp(k):
    o = blank(k)
    raw = bytes((i * 7 + 1) & 0xFF for i in range(k.size))
    o["v"] = gen.from_raw(k, raw)
    o["h"] = [1, 1, 0x0203, 0x0405, 0x060708090A0B0C0D]
    for i, s in enumerate(m.STRINGS.get(k.name, ())):
        o[s] = "abc"[i] * (3 + i)
    if k.name in m.DATA_TAIL:
        o["data"] = bytes(range(200, 211))
    return o


def values(code, enum):
    if enum in m.ENUMS:
        return sorted(m.ENUMS[enum].values())
    if code == "h":
        return [-32768, -32767, -256, -255, -129, -128, -2, -1, 0, 1, 127, 128, 255, 256, 0x7999, 32767]
    if code == "d":
        return [gen.quiet(b) for b in (0, 1 << 63, 0x3FF0000000000000, 0x7FF0000000000000, 1,
                                       0x7FF8000000000000, 0xFFFFFFFFFFFFFFFF, 0x40D2C00000000000,
                                       0x0123456789ABCDEF)]
    if code[:-1].isdigit():
        n = int(code[:-1])
        if code[-1] == "s":
            out = [bytes([b]) * n for b in (0, 0xFF, 0x41)]
            out += [bytes(i == j and 0xA5 or 0 for j in range(n)) for i in range(n)]
            out += [bytes(range(1, n + 1)), bytes(range(n, 0, -1)), b"\xff" * (n - 1) + b"\0"]
            return out
        w = {"I": 32, "Q": 64}[code[-1]]
        return [[(i + 1) << (w - 8) for i in range(n)], [(1 << w) - 1] * n] + [
            [x if i == j else 0 for j in range(n)] for i in range(n) for x in (1, (1 << w) - 1)]
    bits = {"B": 8, "H": 16, "I": 32, "Q": 64}[code]
    return range(256) if bits == 8 else gen.edge(bits)


def with_field(o, name, val):
    return {**o, "v": {**o["v"], name: val}}


def variants(k):
    out = [blank(k), ramp(k)]
    if k.name in ("CAN_FD_MESSAGE_64", "CAN_FD_ERROR_64"):
        for ext in (None, "room", "noroom", "beyond"):
            o = {**ramp(k), "ext": ext}
            if ext == "room":
                o["btr"] = [0x11223344, 0xA5A6A7A8]
            out.append(o)
    if k.name == "LIN_MESSAGE2":
        out += [{**ramp(k), "rev": 1}, {**ramp(k), "rev": 2}]
    return out


def kinds(family):
    if isinstance(family, m.Kind):
        return [family]
    return [k for k in m.KINDS.values() if k.family == family]


def field_sweep(family, tier):
    for k in kinds(family):
        for base in variants(k):
            for n, c, e in k.fields:
                if n in k.derived:
                    continue
                for val in values(c, e):
                    yield with_field(base, n, val)


def header_sweep(family, tier):
    for k in kinds(family):
        for base in (blank(k), ramp(k)):
            for i, bits in enumerate((16, 32, 16, 16, 64)):
                for val in gen.edge(bits):
                    h = list(base["h"])
                    h[i] = val
                    yield {**base, "h": h}


def pair_sweep(family, tier):
    def pts(c, e):
        vs = list(values(c, e))
        return vs if len(vs) <= 2 else [vs[0], vs[-1]] if e in m.ENUMS or c[-1] in "sd" else (
            vs[:2] if c[:-1].isdigit() else [vs[0], vs[-1], vs[len(vs) // 2]])

    for k in kinds(family):
        free = [f for f in k.fields if f[0] not in k.derived]
        for base in (blank(k), ramp(k)):
            for i, (n1, c1, e1) in enumerate(free):
                for n2, c2, e2 in free[i + 1 :]:
                    for a in pts(c1, e1):
                        for b in pts(c2, e2):
                            yield with_field(with_field(base, n1, a), n2, b)


LENGTHS = [*range(0, 301), 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 8191,
           8192, 8193, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65487, 65503, 65504, 65534, 65535]
LONG = [65536, 65537, 70000, 100000, 131071, 131072, 131073, 262144]


HUGE = [1 << 20, (1 << 24) + 3]


def length_sweep(family, tier):
    """Every variable part of every kind over many lengths."""
    for k in kinds(family):
        parts = list(m.STRINGS.get(k.name, ())) + (["data"] if k.name in m.DATA_TAIL else [])
        for p in parts:
            for base in (blank(k), ramp(k)):
                if k.name in ("CAN_FD_MESSAGE_64", "CAN_FD_ERROR_64"):
                    for ext in (None, "room", "noroom", "beyond"):
                        fixed = m.HDR + k.size
                        for n in range(0, 255 - fixed if ext else 256):
                            o = {**base, "ext": ext, p: ["pat", b"\x01\x02LOBJ\xff", n]}
                            if ext == "room":
                                o["btr"] = [n + 1, 0xFFFFFFFF - n]
                            yield o
                    if k.name == "CAN_FD_MESSAGE_64":
                        for n in (256, 1000, 65536):
                            yield {**base, p: ["pat", b"\x01\x02LOBJ\xff", n]}
                    continue
                counted = k.name in ("ETHERNET_FRAME_EX", "FR_RCVMESSAGE_EX")
                for n in LENGTHS + ([] if counted else LONG) + ([] if counted or base == blank(k) else HUGE):
                    if p == "data":
                        yield {**base, p: ["pat", b"\x01\x02LOBJ\xff", n]}
                        if counted and n < 65535:
                            yield {**base, p: ["pat", b"\x01\x02LOBJ\xff", n], "miss": 1 + n % 7 if
                                   n < 65528 else 1}
                    elif k.name == "DIAG_REQUEST_INTERPRETATION":
                        yield {**base, p: ["pat", "a\u20ac", n]}
                    else:
                        yield {**base, p: ["pat", "\u20acb\xe4", n]}
                        if k.name == "APP_TEXT":
                            yield {**base, p: ["pat", "\u20acb\xe4", n], "term": False}
        if k.name in m.ZERO_TAIL_OK:
            for base in variants(k):
                for z in range(1, tail_limit(k, base) + 1):
                    yield {**base, "tz": z}


def tail_limit(k, o):
    """How many bytes may follow the object's last part without being part of the known layout."""
    if o.get("ext") == "noroom":
        return 7
    if o.get("ext") == "beyond" or (k.name == "CAN_FD_MESSAGE_64" and not o.get("ext")):
        return 0
    return {1: 3, 2: 15}.get(o.get("rev"), 15) if k.name == "LIN_MESSAGE2" else 15


def rest_sweep(family, tier):
    """Bytes behind the last known part: they belong to no field."""
    for k in kinds(family):
        if k.name not in m.ZERO_TAIL_OK and k.name not in ("FUNCTION_BUS", "GLOBAL_MARKER", "TRIGGER_CONDITION"):
            continue
        for base in variants(k):
            for z in range(1, tail_limit(k, base) + 1):
                for pat in (b"\xff", b"\1", b"\0\x80", b"\x80\0\0", b"LOBJ", bytes(range(0xF1, 0x100))):
                    yield {"o": {**base, "tz": z}, "rest": (pat * z)[:z]}


def char_sweep(family, tier):
    for k in kinds(family):
        for p in m.STRINGS.get(k.name, ()):
            if k.name == "DIAG_REQUEST_INTERPRETATION":
                chars = [chr(c) for c in (*range(0, 256), 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xFFFD,
                                          0xFFFF, 0x10000, 0x1F600, 0x10FFFF, *range(0x100, 0x180), 0x2C6, 0x2DC,
                                          *range(0x2000, 0x2070), 0x2122)]
                # every character there is, in runs
                step = 256
                for lo in range(0x100, 0x110000, step):
                    if not 0xD800 <= lo < 0xE000:
                        yield {**ramp(k), p: "".join(map(chr, range(lo, lo + step)))}
            else:
                chars = list(m.CP1252)
            for ch in chars:
                for txt in (ch, "x" + ch, ch + "x", ch * 3, "a" + ch + "b"):
                    o = {**ramp(k), p: txt}
                    yield o
                    if k.name == "APP_TEXT" and not txt.endswith("\0"):
                        yield {**o, "term": False}


SMALL = [0, 1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 20, 31, 32, 48, 63, 64, 100, 127, 128, 200, 255, 256,
         1000, 4095, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 40]
DLC_LEN = [*range(9), 12, 16, 20, 24, 32, 48, 64]


def row(k, rnd):
    """An object whose fields come from a palette of few values, often related to each other."""
    o = dict(rnd.choice(variants(k)))
    n = rnd.choice([0, 1, 5, 8, 9, 12, 16, 20, 24, 32, 48, 63, 64, 65, 100])
    pal = rnd.sample(SMALL, 4) + [rnd.choice([0, 1, 2, 7]), n, rnd.getrandbits(rnd.choice([8, 16, 32, 64]))]
    if n in DLC_LEN:
        pal.append(DLC_LEN.index(n))
    v = {}
    for f, c, e in k.fields:
        if f in k.derived:
            continue
        if e in m.ENUMS:
            v[f] = rnd.choice(sorted(m.ENUMS[e].values()))
        elif c in "BHIQ" and len(c) == 1:
            x = rnd.choice(pal)
            v[f] = x if x < 1 << (8 * m.csize(c)) else x & 0xFF
            if e in m.FLAGS and rnd.random() < 0.5:
                v[f] = rnd.choice([0, *m.FLAGS[e].values()]) & ((1 << 8 * m.csize(c)) - 1)
        else:
            v[f] = rnd.choice(list(values(c, e)))
    if rnd.random() < 0.15 and v:
        f = rnd.choice(list(v))
        v = {g: v[f] if (c, e) == [(c2, e2) for f2, c2, e2 in k.fields if f2 == f][0] else v[g]
             for g, c, e in k.fields if g in v}
    o["v"] = v
    o["h"] = [rnd.choice([0, 1, 2, 3]), rnd.choice([0, 1, 2, 3, 1 << 31]), *(rnd.choice(pal) & 0xFFFF for _ in "ab"),
              rnd.choice([0, 1, *pal, 1 << 63])]
    for s in m.STRINGS.get(k.name, ()):
        o[s] = rnd.choice(["", "x", "\0", "Sig\0", " Sig ", "a" * n, "A" * 15 + "\0", "\u20ac"])
    if k.name in m.DATA_TAIL:
        o["data"] = ["pat", rnd.choice([b"\0", b"\1", b"LOBJ", b"\0\xff", bytes(range(1, 255))]), n]
        if o.get("ext") and rnd.random() < 0.3:
            o.pop("ext")
    return o


def row_sweep(family, tier):
    """Every combination of three fields meets most combinations of small values."""
    for k in kinds(family):
        rnd = random.Random(k.name)
        for _ in range(4000 if tier == "quick" else 20000):
            yield row(k, rnd)


EDGES = ["\0", " ", "\n", "\r", "\r\n", "\t", "\x1a", "\x7f", "\xa0", "\xad", "\xe4", "\u20ac", "\xef\xbb\xbf", "~",
         "%", "\\", "/", "'", "L", "LOBJ", "LOGG", "\0" * 8, "\0\0x", "\0" * 70, "\xff\xfe", "\xfe\xff", "\xff", "\x01",
         "\x1b[0m", '"', "#", ";", ",", "=", "<?xml ", "<", ">", "{", "}", "[", "]", "$", "&", "::", ".", "..", "-", "_", "0",
         "0x", "\xb0C", "\xb5"]
UTF_EDGES = EDGES + ["\ufeff", "e\u0301", "\u1e9e", "\u2028", "\x85", "\U0001f600", "\u200d"]
AROUND = [0, 1, 2, 3, 6, 7, 8, 9, 14, 15, 16, 17, 23, 30, 31, 32, 33, 47, 62, 63, 64, 65, 126, 127, 128, 129, 254,
          255, 256, 257, 1000, 5000]


def edge_sweep(family, tier):
    """Special characters and bytes at the start and end of texts and payloads of many lengths."""
    for k in kinds(family):
        base = ramp(k)
        for p in m.STRINGS.get(k.name, ()):
            for e in UTF_EDGES if k.name == "DIAG_REQUEST_INTERPRETATION" else EDGES:
                for n in AROUND:
                    mid = "Name_of_signal::" * (n // 16) + "Name_of_signal::"[: n % 16]
                    for txt in (mid + e, e + mid, e + mid + e, mid + e + e):
                        yield {**base, p: txt}
        if k.name in m.DATA_TAIL:
            for base in variants(k):
                for e in (b"\0", b"\0\0\0\0\0\0\0\0", b"\xff", b"LOBJ", b"LOGG", b"\n", b"\x80", b"\xff\xfe", b"\xfe\xff",
                          b"\xef\xbb\xbf", b"\x78\x9c", b"\x1f\x8b", b"\r\n", b" ", b"\x01", b"\x7f", b"\xff" * 8,
                          b"\xaa" * 8, b"\x55", b"\xcc" * 8):
                    for n in AROUND:
                        if k.name in ("CAN_FD_MESSAGE_64", "CAN_FD_ERROR_64") and n > 120:
                            continue
                        mid = bytes(1 + i % 255 for i in range(n))
                        for d in (mid + e, e + mid, e + mid + e):
                            yield {**base, "data": d}


def sweeps(family):
    out = [Sweep("fields", functools.partial(field_sweep, family)),
           Sweep("headers", functools.partial(header_sweep, family)),
           Sweep("pairs", functools.partial(pair_sweep, family)),
           Sweep("lengths", functools.partial(length_sweep, family)),
           Sweep("rows", functools.partial(row_sweep, family)),
           Sweep("edges", functools.partial(edge_sweep, family)),
           Sweep("rest", functools.partial(rest_sweep, family))]
    if any(m.STRINGS.get(k.name) for k in kinds(family)):
        out.append(Sweep("characters", functools.partial(char_sweep, family)))
    return out


def searches(family, quick, thorough):
    ks = kinds(family)
    out = [Search("random", st.sampled_from(ks).flatmap(lambda k: gen.kind_object(k)), quick,
                  thorough)]
    var = [k for k in ks if k.tail and k.name not in ("CAN_FD_MESSAGE_64", "CAN_FD_ERROR_64",
                                                      "ETHERNET_FRAME_EX", "FR_RCVMESSAGE_EX")]
    if var:
        out.append(Search("long", st.sampled_from(var).flatmap(
            lambda k: gen.kind_object(k, st.one_of(st.integers(0, 20), gen.big_sizes(300001)), 1)),
            quick // 8, thorough // 8))
    return out
