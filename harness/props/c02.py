"""C02: reader decodes any packaging of an object stream."""
from .. import gen, model as m, session
from ..core import Search, Sweep, expect, lib
from ..vb import BlfReader, BlockFile, read_all, same_objects

META = {
    "level": "exploration",
    "technique": "property-based testing: independent file builder as oracle, cut positions enumerated",
    "rule": "One case = a file assembled by an independent builder: objects, filler between objects and"
            " containers, cut positions (several may coincide, giving empty containers), per-container"
            " storage, level, form of the zlib stream, unused header parts, bare objects, trailing filler.  The reader must deliver exactly the objects."
            "  Sweeps put one and two cuts at every position of a stream and slice it into k-byte pieces."
            "  Non-trivial: an object straddles a container border, a container is empty, bare objects,"
            " filler or a verbatim container in a compressed file.",
    "assumptions": ["filler never contains the object signature",
                    "at level 0 a container is verbatim whatever method it states (older files)"],
}
CAN = {"t": "CAN_MESSAGE", "h": [1, 2, 0, 0, 77],
       "v": {"channel": 1, "flags": 0, "dlc": 8, "frame_id": 0x123, "data": b"LOBJ\0\0LO"}}
TXT = {"t": "EVENT_COMMENT", "h": [1, 2, 0, 0, 78], "v": {"commented_event_type": 86, "reserved": 0},
       "text": "LOBJ"}
UNK = {"t": "OPAQUE", "code": 0x9999, "hs": 16, "hv": 1, "body": b"LOBLOBJ"}


def seg(objs, cuts, fill=(), end=b"", store=(), pad=(), hs=16):
    return {"k": "run", "objs": objs, "cuts": cuts, "fill": list(fill), "end": end,
            "store": list(store), "pad": list(pad), "hs": hs}


def sweep(tier):
    objs = [CAN, UNK, TXT, CAN]
    fills = [[], [b"", b"\0" * 7, b"LOB", b"\0"], [b"\0\0\0", b"L", b"\0L\0LO", b"OBJ"]]
    for fill in fills:
        n = sum(m.osize(o) for o in objs) + sum(len(f) for f in fill)
        for lv in (0, 6):
            for c in range(n + 1):
                yield {"level": lv, "segs": [seg(objs, [c], fill)], "tail": b""}
                yield {"level": lv, "segs": [seg(objs, [c, c], fill, store=[0, 1, 1], pad=[b"", b"\0\0"])],
                       "tail": b"\0\0\0\0"}
            for step in range(1, 60):
                yield {"level": lv, "segs": [seg(objs, list(range(step, n, step)), fill, b"\0\0",
                                                 store=[step & 1, 1, 0], hs=32)], "tail": b""}
    short = [UNK, CAN]
    n = sum(m.osize(o) for o in short)
    for a in range(0, n + 1):
        for b in range(a, n + 1, 1 if a < 28 else 5):
            yield {"level": 0 if b % 3 else 1, "segs": [seg(short, [a, b])], "tail": b""}
    for f in range(0, 70):
        for pat in (b"\0", b"L", b"LOB", b"\xffO"):
            for lv in (0, 9):
                p = ["pat", pat, f]
                yield {"level": lv, "segs": [seg([CAN, TXT, CAN], [40, 55], [p, p, p], p, pad=[p, p, p])],
                       "tail": p}
                yield {"level": lv, "segs": [{"k": "bare", "objs": [TXT, CAN], "fill": [p, p]},
                                             seg([CAN, UNK], [11], [p]),
                                             {"k": "bare", "objs": [CAN], "fill": [p]}], "tail": p}
    lengths = sorted(set(range(70, 300)) | {(1 << e) + d for e in range(8, 17) for d in range(-8, 9)} |
                     set(range(300, 5000, 37)))
    for f in lengths:  # outside and inside of containers
        for pat in (b"\0", b"LOB"):
            p = ["pat", pat, f]
            yield {"level": 6, "segs": [seg([CAN, TXT], [55], [], pad=[p, p]), {"k": "bare", "objs": [CAN, TXT], "fill": [p, p]}],
                   "tail": p}
            yield {"level": 6, "segs": [seg([CAN, TXT, CAN], [f // 2, f // 2 + 1], [p, p, p], p)], "tail": b""}
    for lv in range(10):
        for s in range(8):
            yield {"level": lv, "segs": [seg([CAN, TXT, UNK, CAN], [20, 90, 110],
                                             store=[s & 1, s >> 1 & 1, s >> 2 & 1])], "tail": b""}
        for lv2 in (0, 1, 9):
            yield {"level": lv, "segs": [{**seg([CAN, TXT, UNK, CAN], [20, 90, 110]), "lv": lv2}],
                   "tail": b""}
        yield {"level": lv, "segs": [], "tail": b""}
        yield {"level": lv, "segs": [seg([], [0, 0])], "tail": b""}
        yield {"level": lv, "segs": [seg([], []), seg([CAN], [5, 5, 5]), seg([], [0]), seg([UNK], [])],
               "tail": b"\0"}
    for hl in (10, 16, 32, 64, 99, 127, 128, 200, 254, 255):
        for store in ([0, 0], [0, 1, 0]):
            yield {"level": hl, "segs": [seg([CAN, TXT, UNK, CAN], [20, 90, 110], store=store)], "tail": b""}
    for app in range(256):
        yield {"level": app % 10, "segs": [seg([CAN, TXT], [40])], "tail": b"",
               "hdr": {"app": app, "major": app, "minor": 255 - app}}
    stream = [CAN, TXT, UNK, CAN, session.opaque_of(700, fill=b"abc")]
    for wbits in range(9, 16):
        for memory in (1, 8, 9):
            for strategy in range(5):
                for step, flush in ((0, 0), (50, 0), (33, 1), (400, 2)):
                    yield {"level": 6, "segs": [{**seg(stream, [60, 61, 200]), "lv": (0, 1, 6, 9)[wbits % 4],
                                                 "z": [wbits, memory, strategy, step, flush]}], "tail": b""}
    for a in (0, 1, 255, 256, 65535):
        for b in (0, 1, 0x8000, 0x10000, (1 << 32) - 1):
            for c in (0, 1, 0x80000000, (1 << 32) - 1):
                for hv in (1, 2):
                    yield {"level": c % 2 * 5, "segs": [{**seg(stream, [60, 61, 200], store=[0, 1]), "spare": [a, b, c],
                                                         "hv": hv}], "tail": b""}
    for n in (65000, 65536, 131072, 300000):
        for lv in (0, 6):
            big = session.opaque_of(n, fill=b"LOBJ\1")
            yield {"level": lv, "segs": [seg([CAN, big, CAN], list(range(3000, n, 3000)))], "tail": b""}
            yield {"level": lv, "segs": [seg([CAN, big, CAN], [])], "tail": b""}
    # beyond 16 and 24 bits: objects, containers, filler, bytes
    many = [CAN, session.opaque_of(17), session.opaque_of(33)] * 22000
    yield {"level": 0, "segs": [seg(many, [])], "tail": b""}
    yield {"level": 1, "segs": [seg(many, list(range(50, 33 * 66000, 50)))], "tail": b""}
    yield {"level": 0, "segs": [seg([CAN, session.opaque_of(70000), CAN], list(range(70100)))], "tail": b""}
    for lv, n in ((0, 70000), (1, 300000)):
        p = ["pat", b"\0LOB", n]
        yield {"level": lv, "segs": [seg([CAN, TXT, CAN], [40, 200], [p, p, p], p, pad=[p, p, p])], "tail": p}
    for n in (100000, 3 << 20, 1 << 25):  # the highest compression ratios
        zeros = session.opaque_of(n, fill=b"\0")
        yield {"level": 9, "segs": [seg([CAN, zeros, CAN, zeros, TXT], [n // 2])], "tail": b""}
    for lv in (0, 1):
        big = session.opaque_of((1 << 24) + 9, fill=bytes(range(256)) + b"\0")
        yield {"level": lv, "segs": [seg([CAN, big, CAN], [])], "tail": b""}
        yield {"level": lv, "segs": [seg([CAN, big, CAN], [1 << 23, 1 << 24, (1 << 24) + 40])], "tail": b""}
    for k in m.KINDS.values():
        from . import codec

        for o in codec.variants(k):
            size = m.osize(o)
            for c in sorted({1, 3, 4, 15, 16, 20, 31, 32, 33, size // 2, size - 1}):
                yield {"level": c % 2, "segs": [seg([o, o], [c, size + c])], "tail": b""}


def sweeps():
    return [Sweep("cuts", sweep), Sweep("lookalikes", session.lookalike_files), Sweep("giant", giant), Sweep("stir", session.stir_files)]


def searches():
    return [Search("files", gen.file_spec(), 2500, 250000),
            Search("big files", gen.file_spec(4, big=True), 250, 25000)]


def classify(rec, spec):
    for s in spec["segs"]:
        if s["k"] == "bare":
            if s["objs"]:
                rec.hit("bare objects")
            continue
        cuts = s.get("cuts", [])
        pos, edges = 0, set()
        for i, o in enumerate(s["objs"]):
            f = s.get("fill", [])
            if i < len(f) and len(m.B(f[i])):
                rec.hit("filler between objects")
                pos += len(m.B(f[i]))
            edges.add(pos)
            pos += m.osize(o)
            edges.add(pos)
        total = pos + len(m.B(s.get("end", b"")))
        cs = sorted(c % (total + 1) for c in cuts)
        if any(c not in edges and 0 < c < total for c in cs) and s["objs"]:
            rec.hit("straddling")
        if any(e < c < e + 4 for c in cs for e in edges):
            rec.label("cut inside a signature")
        if any(e < c < e + 32 for c in cs for e in edges):
            rec.label("cut inside a header")
        if len(set([0, *cs, total])) < len(cs) + 2:
            rec.hit("empty container")
        if spec["level"] and any(s.get("store", [])):
            rec.hit("verbatim container in compressed file")
        if any(len(m.B(p)) for p in s.get("pad", [])):
            rec.hit("filler between containers")
        if s.get("z"):
            rec.label("other zlib form")
        if any(s.get("spare", ())):
            rec.label("unused header parts set")
    if spec["level"]:
        rec.label("compressed")


def giant(tier):
    yield {"giant": 4300, "size": (1 << 20) + 5, "cut": 900000}
    if tier == "thorough":
        yield {"giant": 3000, "size": (2 << 20) - 41, "cut": 65000}


def check_giant(case, rec):
    """A log of more than 4 GiB with its last objects beyond."""
    one = m.encode(session.opaque_of(case["size"]))
    ends = [session.opaque_of(40 + i, code=200 + i) for i in range(5)]
    f = BlockFile()
    f.write(m.file_header(level=0))
    view = memoryview(one)
    for i in range(case["giant"]):
        for a in range(0, len(one), case["cut"]):
            part = view[a : a + case["cut"]]
            f.write(bytes(-f.end % 8) + m.container_header(len(part)))
            f.write(part)
    f.write(bytes(-f.end % 8))
    f.write(m.container(b"".join(map(m.encode, ends)), 0, sum(map(m.osize, ends))))
    f.write(m.encode(ends[0]))
    f.seek(0)
    n = 0
    with lib("reading more than 4 GiB"):
        r = BlfReader(f)
        for n in range(case["giant"]):
            o = r.read_object()
            expect(o is not None, f"the end after {n} of {case['giant']} objects")
            expect(o.pack() == one, f"object {n} differs")
        o = None
        same_objects(list(r), [*ends, ends[0]], "objects beyond 4 GiB")
    expect(f.end > 1 << 32, "the file is too small")
    rec.hit("over 4 GiB")


def check(name, case, rec):
    if "giant" in case:
        return check_giant(case, rec)
    data, objs, _ready = m.build_file(case)
    got = read_all(data, len(objs))
    same_objects(got, objs, "reading")
    with lib("encoding what was read"):
        for g, o in zip(got, objs):
            expect(bytes(g.pack()) == m.encode(o), f"{o['t']} re-encodes differently")
    classify(rec, case)
