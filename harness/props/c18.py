"""C18: objects made by the factory constructors."""
import calendar
import struct

from hypothesis import strategies as st

from .. import gen, model as m
from ..core import Search, Sweep, expect, lib
from ..vb import BlfReader, BlfWriter, C, G, Sink, Source, cls_of, scripted_clock, vblf

META = {
    "level": "exploration",
    "technique": "property-based testing: independent BLF encoder as oracle for factory-made objects, plus write/read",
    "rule": "One case = a factory (CanMessage, CanMessage2, CanFdMessage, ObjectHeader, LogContainer,"
            " FileStatistics) with generated arguments and one numeric argument forced to a border.  Attributes,"
            " header and encoding are compared with an independent encoder, then the object is written and read"
            " back.  Non-trivial: data is not empty or an argument is at a border.",
    "assumptions": ["valid data is bytes no longer than the frame's fixed field"],
}
U16, U32, U64, U8 = (1 << 16) - 1, (1 << 32) - 1, (1 << 64) - 1, 255
FACT = {
    "CanMessage": ("CAN_MESSAGE", 8, [("channel", U16), ("flags", U8), ("dlc", U8), ("frame_id", U32)], []),
    "CanMessage2": ("CAN_MESSAGE2", 8, [("channel", U16), ("flags", U8), ("dlc", U8), ("frame_id", U32)],
                    [("frame_length", U32), ("bit_count", U8)]),
    "CanFdMessage": ("CAN_FD_MESSAGE", 64, [("channel", U16), ("flags", U8), ("dlc", U8), ("frame_id", U32),
                                            ("frame_length", U32), ("arb_bit_count", U8), ("canfd_flags", U8)], []),
}
ORDER = {"CanMessage": ["channel", "flags", "dlc", "frame_id", "data"],
         "CanMessage2": ["channel", "flags", "dlc", "frame_id", "data", "frame_length", "bit_count"],
         "CanFdMessage": ["channel", "flags", "dlc", "frame_id", "frame_length", "arb_bit_count", "canfd_flags",
                          "data"]}


def values(f):
    _n, _w, a, b = FACT[f]
    return dict(a + b)


def frame_bytes(f, v, flags, ts):
    """The object's encoding, written down independently of the library and of the codec model."""
    d = v["data"]
    if f == "CanMessage":
        body = struct.pack("<HBBI8s", v["channel"], v["flags"], v["dlc"], v["frame_id"], d)
        code = 1
    elif f == "CanMessage2":
        body = struct.pack("<HBBI8sIBBH", v["channel"], v["flags"], v["dlc"], v["frame_id"], d,
                           v["frame_length"], v["bit_count"], 0, 0)
        code = 86
    else:
        body = struct.pack("<HBBIIBBBBI64sI", v["channel"], v["flags"], v["dlc"], v["frame_id"],
                           v["frame_length"], v["arb_bit_count"], v["canfd_flags"], len(d), 0, 0, d, 0)
        code = 100
    head = b"LOBJ" + struct.pack("<HHIIIHHQ", 32, 1, 32 + len(body), code, flags, 0, 0, ts)
    return head + body


@st.composite
def frames(draw):
    f = draw(st.sampled_from(sorted(FACT)))
    width = FACT[f][1]
    v = {n: draw(gen.uint(top.bit_length())) for n, top in values(f).items()}
    n = draw(st.one_of(st.integers(0, width), st.just(width)))
    v["data"] = m.B(draw(gen.payload(n)))
    return {"f": f, "v": v, "flags": draw(st.one_of(st.sampled_from([1, 2, 0]), gen.uint(32))),
            "ts": draw(gen.uint(64)), "kw": draw(st.integers(0, 1)), "enum": draw(st.integers(0, 1)),
            "lv": draw(gen.levels), "buf": draw(st.sampled_from([1, 48, 100, 1 << 17])),
            "sub": draw(st.integers(0, 3)) == 0}


def others():
    hdr = st.builds(lambda s, t, f, ov, ts: {"f": "ObjectHeader", "size": s, "type": t, "flags": f, "ov": ov,
                                             "ts": ts},
                    gen.uint(32), st.sampled_from(sorted(m.OBJ_NAMES)), gen.uint(32), gen.uint(16), gen.uint(64))
    cont = st.builds(lambda d, ts, f, ci: {"f": "LogContainer", "data": m.B(d), "ts": ts, "flags": f, "ci": ci},
                     gen.payload(gen.sizes(5000)), gen.uint(64), st.one_of(st.none(), gen.uint(32)),
                     st.one_of(st.none(), gen.uint(16)))
    stat = st.builds(lambda t: {"f": "FileStatistics", "t": t}, st.floats(0, 4102444800))
    return st.one_of(hdr, cont, cont, stat)


def sweep(tier):
    for f in sorted(FACT):
        width = FACT[f][1]
        base = {n: i + 1 for i, n in enumerate(values(f))}
        for n in range(width + 1):
            for fill in (b"\xff", b"\0", b"LOBJ", b"\x01\x02\x03\0"):
                yield {"f": f, "v": {**base, "data": (fill * width)[:n]}, "flags": 2, "ts": 10**9 + n, "kw": n & 1,
                       "enum": 1, "lv": n % 10, "buf": 1 << 17, "sub": False}
        for n, top in values(f).items():
            for val in (0, 1, 0x80, top >> 1, (top >> 1) + 1, top):
                if val <= top:
                    yield {"f": f, "v": {**base, n: val, "data": b"\x11\0\x22\0"}, "flags": 1, "ts": U64, "kw": 1,
                           "enum": 0, "lv": 0, "buf": 48, "sub": False}
        lens = sorted({k for k in (0, 1, 7, 8, 9, 11, 12, 13, 16, 20, 24, 31, 32, 48, 63, 64) if k <= width})
        for dlc in (*range(17), 31, 127, 128, 255):
            for n in lens:
                for ids, fl in ((0x123, 0), (0x80000123, 0x81), (0x1FFFFFFF, 0x10), (0x7FF, 0xFF), (U32, 1)):
                    yield {"f": f, "v": {**base, "dlc": dlc, "flags": fl, "frame_id": ids, "data": bytes(range(1, n + 1))},
                           "flags": 2, "ts": 10**9 + dlc, "kw": n & 1, "enum": 1, "lv": 0, "buf": 1 << 17, "sub": False}
        for k in range(32):
            for val in ((1 << k) - 1, 1 << k, (1 << k) + 1, U32 ^ (1 << k), 0x1FFFFFFF ^ (1 << k)):
                yield {"f": f, "v": {**base, "frame_id": val, "dlc": k, "data": b"\1" * (k % 9)}, "flags": 1, "ts": val << k & U64,
                       "kw": 1, "enum": 0, "lv": 0, "buf": 48, "sub": False}
        for val in range(256):
            v = {n: min(val, top) for n, top in values(f).items()}
            yield {"f": f, "v": {**v, "data": bytes([val])}, "flags": val, "ts": val << 56, "kw": 0, "enum": 1,
                   "lv": 0, "buf": 100, "sub": True}
        for flags in (0, 1, 2, 3, 4, 16, 0x80000000, U32):
            for ts in (0, 1, 1 << 31, 1 << 32, 1 << 63, U64):
                yield {"f": f, "v": {**base, "data": b""}, "flags": flags, "ts": ts, "kw": 1, "enum": 1, "lv": 6,
                       "buf": 64, "sub": False}
    for t in sorted(m.OBJ_NAMES):
        yield {"f": "ObjectHeader", "size": t, "type": t, "flags": 1, "ov": 3, "ts": 4}
    for s in (0, 31, 32, 33, 65535, 65536, U32):
        yield {"f": "ObjectHeader", "size": s, "type": 1, "flags": U32, "ov": U16, "ts": U64}
    for n in (*range(0, 70), 255, 256, 65535, 65536, 131072, 300001):
        for fl, ci in ((None, None), (0, 0), (2, U16), (U32, 1)):
            yield {"f": "LogContainer", "data": (b"LOBJ\0x" * (n // 6 + 1))[:n], "ts": n << 40, "flags": fl, "ci": ci}
    for t in (0.0, 0.9996, 951782399.9999, 1700000000.5, 4102444799.25, 253402300799.0):
        yield {"f": "FileStatistics", "t": t}


def sweeps():
    return [Sweep("borders", sweep)]


def searches():
    return [Search("frames", frames(), 6000, 600000), Search("headers and containers", others(), 3000, 300000)]


def head_ok(h, what, size, code, flags, ov, ts, ci=0):
    got = (h.base.signature, h.base.header_size, h.base.header_version, h.base.object_size, int(h.base.object_type),
           int(h.object_flags), h.client_index, h.object_version, h.object_time_stamp)
    want = (b"LOBJ", 32, 1, size, code, flags, ci, ov, ts)
    expect(got == want, lambda: f"{what}: header {got}, want {want}")


def check_frame(case, rec):
    f, v = case["f"], case["v"]
    name, width, _a, _b = FACT[f]
    cls = cls_of("can", f)
    if case["sub"]:
        cls = type("My" + f, (cls,), {})
    args = dict(v)
    flags = case["flags"]
    if case["enum"]:
        flags = C.ObjFlags(flags)
        if "canfd_flags" in args:
            args["canfd_flags"] = C.CanFdFlags(args["canfd_flags"])
    raw = frame_bytes(f, v, case["flags"], case["ts"])
    with lib(f"{f}.new"):
        if case["kw"]:
            o = cls.new(object_flags=flags, object_time_stamp=case["ts"], **args)
        else:
            o = cls.new(flags, case["ts"], *[args[n] for n in ORDER[f]])
    expect(type(o) is cls, f"{f}.new made a {type(o).__name__}")
    head_ok(o.header, f, len(raw), {"CAN_MESSAGE": 1, "CAN_MESSAGE2": 86, "CAN_FD_MESSAGE": 100}[name],
            case["flags"], 0, case["ts"])
    for n, want in v.items():
        got = getattr(o, n)
        expect(got == want or (n == "data" and got == want.ljust(width, b"\0")), lambda: f"{f}.{n} is {got!r}, given {want!r}")
    if f == "CanFdMessage":
        expect(o.valid_data_bytes == len(v["data"]),
               f"valid_data_bytes {o.valid_data_bytes} for {len(v['data'])} bytes of data")
    with lib(f"encoding a {f}"):
        got = o.pack()
    expect(len(got) == o.header.base.object_size, f"{f}: encodes to {len(got)} bytes, declares {o.header.base.object_size}")
    expect(got == raw, lambda: f"{f}: encoded as {got.hex()}, want {raw.hex()}")
    with lib(f"writing a {f}"):
        sink = Sink()
        w = BlfWriter(sink, case["lv"], case["buf"])
        w.write(o)
        w.write(o)
        w.close()
        back = list(BlfReader(Source(sink.content)))
    expect(len(back) == 2, f"{len(back)} objects read back, 2 written")
    for b in back:
        expect(type(b).__name__ == f, f"{f} read back as {type(b).__name__}")
        head_ok(b.header, f + " read back", len(raw), m.KINDS[name].code, case["flags"], 0, case["ts"])
        for n, want in v.items():
            if n == "data":
                want = want.ljust(width, b"\0")
            expect(getattr(b, n) == want, lambda: f"{f}.{n} reads back as {getattr(b, n)!r}, given {want!r}")
        with lib("encoding"):
            expect(b.pack() == raw, f"{f}: read back and encoded differently")
    rec.label(f)
    if v["data"]:
        rec.hit()
        rec.label("full data" if len(v["data"]) == width else "short data")
    if any(v[n] in (0, top) for n, top in values(f).items()):
        rec.hit("argument at a border")


def check(name, case, rec):
    f = case["f"]
    if f in FACT:
        check_frame(case, rec)
        return
    rec.label(f)
    rec.hit()
    if f == "ObjectHeader":
        with lib("ObjectHeader.new"):
            h = G.ObjectHeader.new(case["size"], getattr(C.ObjType, m.OBJ_NAMES[case["type"]]), C.ObjFlags(case["flags"]),
                                   case["ov"], case["ts"])
            raw = h.pack()
        head_ok(h, "ObjectHeader.new", case["size"], case["type"], case["flags"], case["ov"], case["ts"])
        want = b"LOBJ" + struct.pack("<HHIIIHHQ", 32, 1, case["size"], case["type"], case["flags"], 0, case["ov"],
                                     case["ts"])
        expect(raw == want, f"header encoded as {raw.hex()}, want {want.hex()}")
    elif f == "LogContainer":
        kw = {}
        if case["flags"] is not None:
            kw["flags"] = C.ObjFlags(case["flags"])
        if case["ci"] is not None:
            kw["client_index"] = case["ci"]
        with lib("LogContainer.new"):
            c = G.LogContainer.new(case["data"], case["ts"], **kw)
            raw = c.pack()
            back = G.LogContainer.unpack(raw)
        flags = int(c.header.object_flags) if case["flags"] is None else case["flags"]
        for x in (c, back):
            head_ok(x.header, "LogContainer.new", 32 + len(case["data"]), 10, flags, 0, case["ts"], case["ci"] or 0)
            expect(x.data == case["data"], "container data differs")
        want = b"LOBJ" + struct.pack("<HHIIIHHQ", 32, 1, 32 + len(case["data"]), 10, flags, case["ci"] or 0, 0,
                                     case["ts"]) + case["data"]
        expect(raw == want, lambda: f"container encoded as {raw.hex()}, want {want.hex()}")
        if not case["data"]:
            rec.label("empty container")
    else:
        with scripted_clock(lambda: case["t"]), lib("FileStatistics.new"):
            s = G.FileStatistics.new()
            raw = s.pack()
        h = m.parse_file_header(raw)
        expect(len(raw) == 144, f"{len(raw)} bytes")
        ver = vblf.__version__.split(".")
        got = (raw[:4], s.statistics_size, h["size"], s.file_size, s.uncompressed_file_size, s.object_count,
               s.restore_points_offset, s.application_major, s.application_minor, bytes(s.reserved))
        want = (b"LOGG", 144, 144, 144, 144, 0, 0, int(ver[0]), int(ver[1]), bytes(64))
        expect(got == want, f"FileStatistics.new: {got}, want {want}")
        for n in ("start", "last"):
            y, mo, dow, d, hh, mi, ss, ms = h[n]
            t = calendar.timegm((y, mo, d, hh, mi, ss)) + ms / 1000
            expect(abs(t - case["t"]) <= 0.00101, f"{n} time {h[n]} at {case['t']}")
            expect((calendar.weekday(y, mo, d) + 1) % 7 == dow, f"{n} time {h[n]}: wrong day of week")
        with lib("decoding"):
            expect(G.FileStatistics.unpack(raw) == s, "FileStatistics.new does not survive encoding")
