"""C03: structure of written files, seen by an independent strict parser."""
import struct

from .. import model as m, session
from ..core import Search, Sweep, expect, lib
from ..vb import BlfWriter, BlockFile, decode

META = {
    "level": "exploration",
    "technique": "property-based testing: strict independent parser as oracle over generated sessions",
    "rule": "One case = a write session (objects, level 0-9, buffer size, target).  The closed file is"
            " parsed by a strict independent parser: header, 8-aligned containers, zero filler, storage"
            " method, true sizes, payload at most the buffer size, stream equal to the encoded objects."
            "  Non-trivial: several objects, several containers or an object at least as large as the"
            " buffer.",
    "assumptions": ["container layout: u16 compression method at +16, u32 uncompressed size at +24"
                    " (as in the fixture recorded by Vector tools)",
                    "stream alignment is only required when the buffer size is a multiple of 8"],
}


def sweeps():
    return [Sweep("kinds", session.kind_sweep), Sweep("lookalikes", session.lookalike_sweep), Sweep("sizes", session.size_sweep),
            Sweep("edges", session.edge_sweep), Sweep("scale", session.scale_sweep),
            Sweep("grid", session.grid_sweep), Sweep("stir", session.stir_sweep), Sweep("giant", giant)]


def giant(tier):
    yield {"giant": 4300, "size": (1 << 20) + 3, "buf": 1 << 20}
    if tier == "thorough":
        yield {"giant": 2200, "size": (2 << 20) - 40, "buf": 1 << 17}
        yield {"giant": 175, "size": 50 << 20, "buf": 3 << 20}


def check_giant(case, rec):
    """A log of more than 4 GiB, parsed where it lies."""
    one = m.encode(session.opaque_of(case["size"]))
    f = BlockFile()
    with lib("writing more than 4 GiB"):
        with BlfWriter(f, 0, case["buf"]) as w:
            o = decode(session.opaque_of(case["size"]))
            for _ in range(case["giant"]):
                w.write(o)
    expect(f.end > 1 << 32, f"the file has {f.end} bytes")
    f.seek(0)
    h = m.parse_file_header(f.read(144))
    expect((h["count"], h["fsize"], h["usize"], h["level"]) == (case["giant"], f.end, 144 + case["giant"] * len(one), 0),
           f"header of a log of {f.end} bytes: {h}")
    at, todo, off = 0, case["giant"], 144  # position in the current object, objects to come, position in the file
    gap = 0
    while off < f.end:
        where = f"container at {off}"
        f.seek(off)
        sig, _hs, _hv, size, code, method, _r, _r2, usize, _r3 = struct.unpack("<4sHHIIHHIII", f.read(32))
        expect((sig, code, method, usize) == (b"LOBJ", 10, 0, size - 32), f"{where}: {sig}, type {code}, method {method}, sizes {size} {usize}")
        expect(0 < usize <= case["buf"], f"{where} holds {usize} bytes, buffer size is {case['buf']}")
        data = f.read(usize)
        expect(len(data) == usize, f"{where} is cut off")
        p = 0
        while p < usize:
            if at == 0 and gap:
                k = min(gap, usize - p)
                expect(not any(data[p : p + k]), f"{where}: filler is not zero")
                gap, p = gap - k, p + k
                continue
            expect(todo > 0, f"{where}: data behind the last object")
            k = min(len(one) - at, usize - p)
            expect(data[p : p + k] == one[at : at + k], f"{where}: object {case['giant'] - todo} differs near its byte {at}")
            at, p = at + k, p + k
            if at == len(one):
                at, todo, gap = 0, todo - 1, -len(one) % 8 if todo > 1 else 0
        off += size
        fill = -off % 8 if off < f.end else 0
        f.seek(off)
        expect(f.read(fill) == bytes(fill), f"filler behind the {where}")
        off += fill
    expect(todo == 0, f"{todo} of {case['giant']} objects are not in the file")
    rec.hit("over 4 GiB")


def searches():
    return [Search("mixed", session.sessions(), 2200, 200000),
            Search("big", session.sessions(4, big=True), 300, 30000),
            Search("many", session.many(), 40, 3000)]


def check(name, case, rec):
    if "giant" in case:
        return check_giant(case, rec)
    data, _lo, mo = session.run(case)
    w = m.Written(data)
    memo = {}
    raws = [memo.setdefault(id(o), m.encode(o)) for o in mo]
    expect(w.header["level"] == case["lv"], f"level {w.header['level']} in the header")
    parts = w.payloads()
    for (off, method, usize, stored, _end), p in zip(w.containers, parts):
        where = f"container at {off}"
        expect(off % 8 == 0, f"{where} is not 8-byte aligned")
        expect(len(p) <= case["buf"], f"{where} holds {len(p)} bytes, buffer size is {case['buf']}")
        expect(len(p) > 0, f"{where} is empty")
        expect(method == (2 if case["lv"] else 0), f"{where}: method {method} at level {case['lv']}")
        expect(usize == len(p) & 0xFFFFFFFF, f"{where}: uncompressed size {usize}, really {len(p)}")
    m.match_stream(b"".join(parts), raws, aligned=case["buf"] % 8 == 0, trailing=0)
    session.classify(rec, case, mo, raws)
