"""C08: headers, file statistics and system times at any offset."""
import struct

from hypothesis import strategies as st

from .. import gen, model as m
from ..core import Search, Sweep, expect, fail, lib, mix
from ..vb import C, G

META = {
    "level": "exploration",
    "technique": "property-based testing: header codec against an independent layout at random offsets",
    "rule": "One case = field values of one header class (system time, base header, object header,"
            " variable object header, log container, file statistics) plus the bytes around it."
            " unpack, unpack_from(offset), pack and pack_into(offset) are compared with an independent"
            " layout; bytes outside the extent must stay untouched.  Sweeps enumerate all type codes"
            " 0..4200, all application ids, all levels, every flag bit and boundary values of every"
            " field.  Non-trivial: some field is non-zero; labelled by class and by offset > 0.",
    "assumptions": ["unknown application/type codes are decoded to UNKNOWN and therefore not re-encodable"],
}

BASE = [("header_size", "H", None), ("header_version", "H", None), ("object_size", "I", None),
        ("object_type", "I", None)]
OBJ = [("object_flags", "I", "ObjFlags"), ("client_index", "H", None), ("object_version", "H", None),
       ("object_time_stamp", "Q", None)]
VAR = [("object_flags", "I", "ObjFlags"), ("object_static_size", "H", None),
       ("object_version", "H", None), ("object_time_stamp", "Q", None)]
TIME = [(n, "H", None) for n in ("year", "month", "day_of_week", "day", "hour", "minute", "second",
                                 "milliseconds")]
STATS = [("statistics_size", "I", None), ("api_number", "I", None), ("application_id", "B", None),
         ("compression_level", "B", None), ("application_major", "B", None),
         ("application_minor", "B", None), ("file_size", "Q", None),
         ("uncompressed_file_size", "Q", None), ("object_count", "I", None),
         ("application_build", "I", None),
         *[("measurement_start_time." + n, "H", None) for n, *_ in TIME],
         *[("last_object_time." + n, "H", None) for n, *_ in TIME],
         ("restore_points_offset", "Q", None), ("reserved", "64s", None)]
CONT = BASE[:2] + OBJ
LAYOUT = {"time": TIME, "base": BASE, "object": BASE + OBJ, "var": BASE + VAR, "stats": STATS,
          "container": CONT}
SIG = {"time": b"", "stats": b"LOGG"}
CLS = {"time": "SystemTime", "base": "ObjectHeaderBase", "object": "ObjectHeader",
       "var": "VarObjectHeader", "stats": "FileStatistics", "container": "LogContainer"}


def zero(code):
    return bytes(int(code[:-1])) if code.endswith("s") else 0


def case_of(c, vals=None, pre=b"", post=b"", **kw):
    v = [zero(code) for _n, code, _e in LAYOUT[c]]
    for i, x in (vals or {}).items():
        v[i] = x
    return {"c": c, "v": v, "pre": pre, "post": post, **kw}


def sweep(tier):
    pres = [(b"", b""), (b"\xAA" * 3, b"\x55" * 5), (b"LOBJ" * 4 + b"\x10" * 17, b"LOBJ")]
    for c, lay in LAYOUT.items():
        for pre, post in pres if c not in ("stats", "container") else pres[:1]:
            yield case_of(c, {i: (j * 7 + 1) % 250 if not code.endswith("s") else bytes(range(64))
                              for j, (i, (_n, code, _e)) in enumerate(enumerate(lay))}, pre, post)
            for i, (n, code, _e) in enumerate(lay):
                if code.endswith("s"):
                    for b in range(64):
                        for bit in (0x81, 0xFF, 0x01, 0x20):
                            yield case_of(c, {i: bytes(x == b and bit or 0 for x in range(64))}, pre, post)
                        yield case_of(c, {i: bytes(x == b and 0xFE or 0xFF for x in range(64))}, pre, post)
                    for fill in (b"\xff", b" ", b"\0\1", b"LOBJ", b"\x20\0"):
                        yield case_of(c, {i: (fill * 64)[:64]}, pre, post)
                    continue
                bits = {"B": 8, "H": 16, "I": 32, "Q": 64}[code]
                vals = range(256) if bits == 8 else gen.edge(bits)
                if n == "object_type":
                    vals = [*range(0, 4200 if not pre else 300), *[x for x in vals if x >= 300]]
                for x in vals:
                    yield case_of(c, {i: x}, pre, post)
                    full = {j: (1 << {"B": 8, "H": 16, "I": 32, "Q": 64}[cd]) - 1
                            for j, (_n, cd, _e) in enumerate(lay) if not cd.endswith("s")}
                    yield case_of(c, {**full, i: x}, pre, post)
    big = {x + d for x in (1 << k for k in range(7, 18)) for d in (-16, -1, 0, 1, 16)}
    big |= {v for e in gen.dictionary()[0] for v in (e - 1, e, e + 1)} | {1 << 20, (1 << 24) + 3}
    for off in [*range(130), *sorted(x for x in big if 130 <= x <= 1 << 25)]:
        for c in ("time", "base", "object", "var"):
            pre = bytes((i * 5 + 1) & 0xFF for i in range(off)) if off < 130 else ["pat", b"\x05\xee\0", off]
            yield case_of(c, {0: 7, 1: 3, 2: 9, 3: 0x1234 if c == "time" else 86}, pre, ["pat", b"\xEE", mix(off, c) % 50])
            if c != "time":  # as headers usually are
                n, k, ts = ((32, 48, 1), (32, 33, 65), (24, 4096, 92), (40, 1 << 20, 6))[mix(off, c, 1) % 4]
                yield case_of(c, {0: n, 1: 1, 2: k, 3: ts, **({} if c == "base" else {4: 2, 7: 10**9 + off})}, pre,
                              b"" if mix(off, c, 2) % 2 else ["pat", b"LOBJ", mix(off, c, 3) % 90])


@st.composite
def random_case(draw):
    c = draw(st.sampled_from(list(LAYOUT)))
    v = []
    for n, code, _e in LAYOUT[c]:
        if code.endswith("s"):
            v.append(draw(gen.raw_block(64)))
        elif n == "object_type":
            v.append(draw(st.one_of(st.integers(0, 135), gen.uint(32))))
        else:
            v.append(draw(gen.uint({"B": 8, "H": 16, "I": 32, "Q": 64}[code])))
    around = st.one_of(st.just(b""), st.binary(max_size=40), st.just(b"LOBJ" * 6),
                       gen.payload(gen.sizes(5000)))
    out = {"c": c, "v": v, "pre": draw(around), "post": draw(around)}
    if c == "container":
        out["data"] = draw(gen.payload(gen.sizes(3000)))
    return out


def sweeps():
    return [Sweep("fields", sweep)]


def searches():
    return [Search("random", random_case(), 6000, 400000)]


def encode(c, v, data):
    head = SIG.get(c, b"LOBJ")
    lay = LAYOUT[c]
    if c == "container":
        body = m.cpack("H", v[0]) + m.cpack("H", v[1]) + struct.pack("<II", 32 + len(data), 10)
        return head + body + b"".join(m.cpack(cd, x) for (_n, cd, _e), x in zip(lay[2:], v[2:])) + data
    return head + b"".join(m.cpack(cd, x) for (_n, cd, _e), x in zip(lay, v))


def attr(obj, c, n):
    if c in ("object", "var") and n in dict((b[0], 1) for b in BASE):
        return getattr(obj.base, n)
    if c == "container":
        return getattr(obj.header.base if n in ("header_size", "header_version") else obj.header, n)
    for part in n.split("."):
        obj = getattr(obj, part)
    return obj


def check_values(where, obj, c, v):
    expect(type(obj).__name__ == CLS[c], f"{where}: {type(obj).__name__}")
    exact = True
    for (n, code, e), want in zip(LAYOUT[c], v):
        got = attr(obj, c, n)
        if n == "object_type":
            m.check_enum(f"{where} {n}", got, "ObjType", want if want in m.OBJ_NAMES else 0)
            exact &= want in m.OBJ_NAMES
        elif n == "application_id":
            known = want in m.ENUMS["AppId"].values()
            m.check_enum(f"{where} {n}", got, "AppId", want if known else 0)
            exact &= known
        elif n == "compression_level":
            expect(isinstance(got, int) and got == want, f"{where} {n}: {got!r} want {want}")
            if want in m.ENUMS["Compression"].values():
                m.check_enum(f"{where} {n}", got, "Compression", want)
        else:
            m.check_value(f"{where} {n}", got, code, e, want)
    if c not in ("time",):
        sig = obj.signature if c in ("base", "stats") else (
            obj.header.base.signature if c == "container" else obj.base.signature)
        m.check_value(f"{where} signature", sig, "4s", None, SIG.get(c, b"LOBJ"))
    return exact


def check(name, case, rec):
    c, v, pre, post = case["c"], case["v"], m.B(case["pre"]), m.B(case["post"])
    data = m.B(case.get("data", b""))
    raw = encode(c, v, data)
    cls = getattr(G, CLS[c])
    with lib(f"{cls.__name__}.unpack"):
        obj = cls.unpack(raw)
        exact = check_values(f"{cls.__name__}.unpack", obj, c, v)
        if c == "container":
            m.check_value("data", obj.data, "bytes", None, data)
        back = bytes(obj.pack())
        again = bytes(obj.pack())
    if exact:
        expect(back == raw, lambda: f"{cls.__name__}: pack gives {back.hex()[:300]} want {raw.hex()[:300]}")
    expect(back == again and len(back) == len(raw), f"{cls.__name__}: pack not repeatable")
    if c not in ("stats", "container"):
        big = pre + raw + post
        off = len(pre)
        with lib(f"{cls.__name__}.unpack_from offset {off}"):
            o2 = cls.unpack_from(big, off)
            check_values(f"{cls.__name__}.unpack_from offset {off}", o2, c, v)
            expect(o2 == obj, f"{cls.__name__}: unpack_from and unpack disagree at offset {off}")
            if not off:
                expect(cls.unpack_from(big) == obj, f"{cls.__name__}: default offset is not 0")
        buf = bytearray(pre + bytes(b ^ 0xFF for b in raw) + post)
        with lib(f"{cls.__name__}.pack_into offset {off}"):
            o2.pack_into(buf, off)
        expect(bytes(buf) == pre + back + post,
               lambda: f"{cls.__name__}.pack_into at {off} of {len(big)}: {bytes(buf).hex()[:400]}")
        if off:
            rec.label("offset")
    rec.label(c)
    if any(x not in (0, bytes(64)) for x in v):
        rec.hit()
    if not exact:
        rec.label("unknown code")


# the enumerations are looked up by name, so their existence is part of the harness
assert C.ObjType and fail
