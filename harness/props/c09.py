"""C09: unknown objects pass through; codes map to names and classes."""
from hypothesis import strategies as st

from .. import gen, model as m
from ..core import Search, Sweep, expect, lib, mix
from ..vb import Sink, read_all, same_objects, write_log
from . import c02, codec

META = {
    "level": "exploration",
    "technique": "property-based testing: type-code enumeration and opaque objects against a reference table",
    "rule": "One case = a packaged log with an object of every enumerated type code (all 0..4200, powers of"
            " two, random 32-bit codes) between known objects, unknown objects of many sizes up to 16 MiB, or a random mix of opaque and known objects."
            " Delivered class, type name and raw bytes are compared with the reference table; the objects"
            " are written again and the stored bytes compared.  Non-trivial: the log holds at least one"
            " object the library does not implement.",
    "assumptions": ["the documented names are those of the reference table in harness/model.py",
                    "type code 10 is the container itself and is not an opaque object"],
}


def opaque(code, body=b"\x01\x02\x03", hs=32, hv=1):
    return {"t": "OPAQUE", "code": code, "hs": hs, "hv": hv, "body": body}


def codes(tier):
    out = [c for c in range(4201) if c != 10 and c not in m.IMPLEMENTED]
    out += [c for c in gen.edge(32) if c > 4200]
    out += [k + (1 << s) for k in (1, 10, 86, 100) for s in (8, 16, 24, 31)]
    return sorted(set(c for c in out if c != 10 and c not in m.IMPLEMENTED))


def sweep(tier):
    cs = codes(tier)
    bodies = [b"", b"\x01", b"LOBJ", bytes(range(40)), b"\0" * 16, b"\xff" * 100, b"LOBJ" * 9 + b"LO"]
    for i in range(0, len(cs), 3):
        objs = [c02.CAN]
        for c in cs[i : i + 3]:
            for hs in (32, (16, 40, 0, 24)[mix(c) % 4]):
                objs += [opaque(c, bodies[mix(c, hs, 1) % len(bodies)], hs, mix(c, hs, 2) % 3), c02.TXT]
        yield {"objs": objs, "lv": mix(i) % 2 * 6, "cut": 30 + mix(i, 1) % 50}
    for c in [c for c in range(129) if c != 10 and c not in m.IMPLEMENTED]:
        for b in bodies:
            yield {"objs": [opaque(c, b), opaque(c, b + b"x")], "lv": mix(c, b) % 10, "cut": len(b)}
    for k in m.KINDS.values():
        for v in codec.variants(k):
            yield {"objs": [opaque(k.code + 1 if k.code + 1 not in m.IMPLEMENTED and k.code != 9 else 2000),
                            v, opaque(0x10000 + k.code, m.encode(v)[16:])], "lv": k.code % 2, "cut": 40}


def size_sweep(tier):
    """Unknown objects of all sizes."""
    near = sorted({(1 << k) + d for k in range(9, 25) for d in (-33, -32, -17, -16, -15, -8, -1, 0, 1, 8)} |
                  {100000, 131072 * 3, 65535 * 2, 300001, 1000000})
    for n in (*range(600), *near):
        a, b = (opaque((13, 22, 24, 12, 30, 64, 111, 150, 5000, 0x10056, (1 << 32) - 1)[mix(n, d) % 11],
                       ["pat", (b"a", b"\0", b"LOBJ", b"\xff~", bytes(range(1, 13)))[mix(n, d, 1) % 5], n],
                       (32, 16)[mix(n, d, 2) % 2]) for d in (0, 1))
        yield {"objs": [a, c02.CAN, b] if n < 1 << 22 else [a], "lv": (0, 6, 1)[mix(n) % 3],
               "cut": (n // 2, 16, n + 20, 4, n + 3)[mix(n, 3) % 5]}


@st.composite
def cases(draw):
    objs = draw(st.lists(st.one_of(gen.opaque(gen.sizes(2000)), gen.opaque(gen.sizes(2000)),
                                   gen.stream_object()), min_size=1, max_size=8))
    return {"objs": objs, "lv": draw(gen.levels), "cut": draw(st.integers(0, 4000))}


def sweeps():
    return [Sweep("codes", sweep), Sweep("sizes", size_sweep)]


def searches():
    return [Search("mixed", cases(), 3000, 250000)]


def check(name, case, rec):
    objs = case["objs"]
    raws = [m.encode(o) for o in objs]
    data, _, _ = m.build_file({"level": case["lv"], "segs": [c02.seg(objs, [case["cut"]])], "tail": b""})
    got = read_all(data, len(objs))
    same_objects(got, objs, "reading")
    with lib("passing the objects on"):
        for g, o, raw in zip(got, objs, raws):
            expect(bytes(g.pack()) == raw, f"{o['t']} code {o.get('code')} is not passed on unaltered")
        _w, sink = write_log(got, case["lv"], 1 << 16, Sink())
    w = m.Written(sink.content)
    m.match_stream(w.stream(), raws, aligned=False)
    same_objects(read_all(sink.content, len(objs)), objs, "reading the copy")
    for o in objs:
        if o["t"] == "OPAQUE":
            rec.hit("known name" if o["code"] in m.OBJ_NAMES else "unheard-of code")
        else:
            rec.label("implemented kind")
