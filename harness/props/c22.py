"""C22: copying and storage settings do not change content."""
import random

from hypothesis import strategies as st

from .. import gen, model as m, session
from ..core import Search, Sweep, expect, lib, mix
from ..vb import BlfReader, Sink, Source, drain, has_nan, write_log
from . import c02

META = {
    "level": "exploration",
    "technique": "property-based testing: metamorphic (copy of a copy; same objects under two settings)",
    "rule": "One case = a well-formed file from the independent builder plus two storage settings (level,"
            " buffer size).  It is read, every yielded object written under the first setting, that copy"
            " read and written under the second; the object bytes inside each copy (independent parser)"
            " must equal those of the original, sequences must be equal, counts and uncompressed sizes"
            " must agree, and a further copy under the same setting changes nothing.  Non-trivial: at"
            " least two objects and different settings.",
    "assumptions": ["objects are canonical (encoding what they decode to gives the same bytes)"],
}


@st.composite
def cases(draw):
    spec = draw(gen.file_spec(6, bare=True))
    total = sum(gen.stream_sizes(s["objs"]) for s in spec["segs"])
    return {"spec": spec, "a": [draw(gen.levels), draw(gen.buffer_for(total))],
            "b": [draw(gen.levels), draw(gen.buffer_for(total))]}


def sweep(tier):
    from . import codec

    for k in m.KINDS.values():
        vs = codec.variants(k)
        for i, (a, b) in enumerate((((0, 64), (9, 1 << 20)), ((6, 33), (0, 131072)), ((1, 1000), (1, 40)))):
            yield {"spec": {"level": i * 3, "segs": [c02.seg([*vs, c02.UNK, *vs], [50, 51])], "tail": b""},
                   "a": list(a), "b": list(b)}
        rows = [gen.row_object(k.name, i) for i in range(120 if tier == "quick" else 3000)]
        more = list(codec.edge_sweep(k, tier))
        more = [o for o in more if m.osize(o) < 600][:: 1 if tier != "quick" else 5]
        for i in range(0, len(rows + more), 120):
            part = (rows + more)[i : i + 120]
            yield {"spec": {"level": i % 2, "segs": [c02.seg(part, [500, 5000])], "tail": b""},
                   "a": [1, 700], "b": [0, 1 << 17]}
    opq = session.opaque_of
    codes = sorted({*range(0, 140), *range(140, 1100, 7), 1000, 1001, 32767, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1} - {k.code for k in m.KINDS.values()} - {10})
    for i in range(0, len(codes), 20):
        objs = [opq(32 + (c + i) % 9, code=c) for c in codes[i : i + 20]]
        yield {"spec": {"level": mix(i) % 3, "segs": [c02.seg(objs, [300])], "tail": b""}, "a": [mix(i, 1) % 10, 64],
               "b": [mix(i, 2) % 10, 1 << 22]}
    for i, n in enumerate((4000, 70001, 300000, 1200003)):
        for a, b in (([0, 1 << 17], [6, 1 << 24]), ([9, 1000], [0, 1 << 40])):
            yield {"spec": {"level": i % 3, "segs": [c02.seg([c02.CAN, opq(n), c02.TXT], [n // 2])], "tail": b""}, "a": a, "b": b}
    yield {"spec": {"level": 1, "segs": [c02.seg([c02.CAN, c02.TXT, c02.UNK] * 800, [5000, 60000])], "tail": b""}, "a": [1, 1 << 17], "b": [0, 777]}
    for lv in range(10):
        yield {"spec": {"level": lv, "segs": [c02.seg([c02.CAN, c02.TXT] * 5, [70])], "tail": b""},
               "a": [9 - lv, 50 + lv], "b": [(lv + 3) % 10, 4096]}
        yield {"spec": {"level": lv, "segs": [], "tail": b""}, "a": [lv, 9], "b": [3, 5]}


def stir_sweep(tier):
    rnd = random.Random(22)
    for spec in session.stir_files(tier, 1000):
        total = sum(gen.stream_sizes(s["objs"]) for s in spec["segs"])
        yield {"spec": spec, "a": [rnd.randrange(10), max(total // 500 + 1, session.logint(rnd, 21))],
               "b": [rnd.randrange(10), max(total // 500 + 1, session.logint(rnd, 21))]}


def sweeps():
    return [Sweep("kinds", sweep), Sweep("stir", stir_sweep)]


def searches():
    return [Search("copies", cases(), 1800, 150000)]


def read(data, limit, what):
    with lib(what):
        r = BlfReader(Source(data))
        return drain(r, limit), r.file_statistics


def check(name, case, rec):
    data, objs, _ = m.build_file(case["spec"])
    raws = [m.encode(o) for o in objs]
    first, _ = read(data, len(objs), "reading the original")
    expect(len(first) == len(objs), f"original yields {len(first)} of {len(objs)} objects")
    prev, copies = first, []
    for what, (lv, buf) in (("copy", case["a"]), ("copy of the copy", case["b"])):
        with lib(f"writing the {what}"):
            _w, sink = write_log(prev, lv, buf, Sink())
        w = m.Written(sink.content)
        m.match_stream(w.stream(), raws, aligned=False)
        got, fs = read(sink.content, len(objs), f"reading the {what}")
        expect(len(got) == len(objs), f"{what} yields {len(got)} of {len(objs)} objects")
        for i, (g, f) in enumerate(zip(got, first)):
            expect(has_nan(objs[i]) or g == f, f"{what}: object {i} ({objs[i]['t']}) differs from the original")
        copies.append((fs.object_count, fs.uncompressed_file_size, w.header["count"], w.header["usize"]))
        prev = got
    expect(copies[0] == copies[1], f"statistics differ between settings: {copies}")
    expect(copies[0][0] == len(objs), f"copy counts {copies[0][0]} objects, original has {len(objs)}")
    with lib("repeating the copy"):
        _w, again = write_log(prev, *case["b"], Sink())
    s1, s2 = m.Written(sink.content).stream(), m.Written(again.content).stream()
    expect(s1 == s2, "repeating the copy changes the stored stream")
    if len(objs) > 1 and case["a"] != case["b"]:
        rec.hit()
    session.classify(rec, {"lv": case["a"][0], "buf": case["a"][1]}, objs, raws)
    if case["a"][0] != case["spec"]["level"]:
        rec.label("level changed")
