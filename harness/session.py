"""Write sessions shared by the writer-side properties.

case = {"objs": [...] | {"rep": [...], "n": count}, "lv": level, "buf": buffer size,
        "via": 0 decoded / 1 constructed objects / 2 objects of a user-defined kind, "enum": pass the level as Compression constant,
        "tgt": "mem" | "path"}
"""
import bz2
import functools
import gzip
import lzma
import os
import pathlib
import random
import zlib

from hypothesis import strategies as st

from . import gen, model as m
from .core import lib, mix
from .vb import BlfWriter, C, Sink, construct, decode, own, scratch

DEFAULT_BUF = 128 * 1024


def expand(objs):
    if isinstance(objs, dict):
        base, n = objs["rep"], objs["n"]
        return [base[i % len(base)] for i in range(n)] if base else []
    return objs


def lib_objects(objs, via=0):
    """Library objects; equal model objects share one library object only in repeated lists."""
    memo = {}
    out = []
    for o in objs:
        k = id(o)
        if k not in memo:
            memo[k] = (decode, construct, own)[via](o)
        out.append(memo[k])
    return out


def level_of(case):
    lv = case["lv"]
    if case.get("enum") and lv in m.ENUMS["Compression"].values():
        return C.Compression(lv)
    return lv


def run(case, objs=None, target=None):
    """Write the session; -> (file bytes, library objects, model objects)."""
    mo = expand(case["objs"]) if objs is None else objs
    with lib("preparing objects"):
        lo = lib_objects(mo, case.get("via", 0))
    path = None
    with lib("writing"):
        if case.get("tgt") == "path":
            path = pathlib.Path(scratch()) / "log.blf"
            sink = path
        else:
            sink = Sink()
        w = BlfWriter(sink, compression_level=level_of(case), buffer_size=case["buf"])
        for o in lo:
            w.write(o)
        w.close()
    if path:
        data = path.read_bytes()
        os.unlink(path)
    else:
        data = sink.content
    return data, lo, mo


def classify(rec, case, mo, raws=None):
    sizes = [len(r) for r in raws] if raws is not None else [m.osize(o) for o in mo]
    buf = case["buf"]
    total = sum((s + 7) // 8 * 8 for s in sizes)
    if not mo:
        rec.label("empty")
        return
    if total > buf:
        rec.hit("several containers")
    if any(s > buf for s in sizes):
        rec.hit("object larger than buffer")
    if any(s > 4 * buf for s in sizes):
        rec.label("object many times larger")
    if any(s == buf for s in sizes):
        rec.hit("object equals buffer")
    if total == buf:
        rec.hit("total equals buffer")
    if buf % 8:
        rec.label("odd buffer size")
    if len(mo) > 1:
        rec.nontrivial = True
        rec.label("several objects")
    if any(s % 8 for s in sizes):
        rec.label("padding needed")
    if case["lv"]:
        rec.label("compressed")
    if any(s > 65536 for s in sizes):
        rec.label("object over 64 KiB")


@st.composite
def sessions(draw, max_objs=12, big=False, tgt=True):
    objs = draw(gen.objects(0, max_objs, big))
    total = gen.stream_sizes(objs)
    c = {"objs": objs, "lv": draw(gen.levels), "buf": draw(gen.buffer_for(total)),
         "via": draw(st.sampled_from([0, 1, 0, 1, 2])), "enum": draw(st.integers(0, 1))}
    if tgt and draw(st.integers(0, 7)) == 0:
        c["tgt"] = "path"
    return c


@st.composite
def many(draw, top=6000):
    """Thousands of objects, so that default-like buffers are filled repeatedly."""
    base = draw(gen.objects(1, 4))
    per = gen.stream_sizes(base) / len(base)
    n = draw(st.integers(1, max(2, min(top, int(1500000 / per)))))
    total = int(per * n)
    buf = draw(st.one_of(st.just(DEFAULT_BUF), gen.buffer_for(total, 200)))
    return {"objs": {"rep": base, "n": n}, "lv": draw(gen.levels), "buf": max(buf, total // 400, 1),
            "via": 0}


def opaque_of(size, code=7 + 15, fill=b"\x5a"):
    """An unknown object of exactly *size* bytes (>= 16)."""
    return {"t": "OPAQUE", "code": code, "hs": 32, "hv": 1, "body": ["pat", fill, size - 16]}


def size_sweep(tier):
    """Object size against buffer size, exhaustively for small values."""
    sizes = [16, 17, 19, 20, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 72]
    bufs = [1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 47, 48, 49, 56, 63, 64, 65,
            72, 80, 95, 96, 97, 112, 127, 128, 129, 144, 160, 192, 200]
    for s in sizes:
        for b in bufs:
            for n in (1, 3):
                yield {"objs": [opaque_of(s, fill=bytes([i + 1])) for i in range(n)],
                       "lv": 0 if mix(s, b, n) % 3 else 6, "buf": b, "via": mix(s, b, n, 1) % 3}
    for n in range(0, 26):
        for b in (48, 96, 100, 144, 480, 4800):
            yield {"objs": [{"t": "CAN_MESSAGE", "h": [1, 2, 0, 0, i],
                             "v": {"channel": i, "flags": 0, "dlc": 8, "frame_id": i, "data": b"LOBJLOBJ"}}
                            for i in range(n)], "lv": mix(n, b) % 10, "buf": b, "via": mix(n, b, 1) % 3}


@functools.lru_cache(None)
def noise(n):
    return random.Random(n).randbytes(n)


def grid_sweep(tier):
    """Levels against object sizes, contents and buffer sizes; sizes at and around powers of two."""
    bufs = [(1 << 20) + 3, DEFAULT_BUF, 4096, 1003, 517, 262, 77]
    for lv in range(10):
        for i, s in enumerate((21, 700, 4100, 9000, 33000, 70001)):
            for j, fill in enumerate((b"\0", noise(5003), b"LOBJ")):
                for buf in {bufs[(lv + i + j) % 7], bufs[(lv * 2 + i + j + 3) % 7]} if s > 1000 else bufs:
                    yield {"objs": [opaque_of(s, fill=fill), opaque_of(40 + lv), opaque_of(s + 1, fill=fill)],
                           "lv": lv, "buf": max(buf, s // 100), "via": mix(lv, i, j, buf) % 3, "enum": mix(lv, i, j, buf, 1) % 2}
    for k in range(5, 21):
        for d in (-1, 0, 1):
            for n in range(3):
                lv, buf = [(0, DEFAULT_BUF), (6, 1 << k), (1, (1 << k) - 1 + 2 * (d > 0))][n]
                yield {"objs": [opaque_of((1 << k) + d, fill=noise(257)), opaque_of(19), opaque_of((1 << k) + d)],
                       "lv": lv if mix(k, d, n) % 2 else mix(k, d, n, 1) % 10, "buf": buf, "via": mix(k, d, n, 2) % 3}
                yield {"objs": [opaque_of(24), {"t": "APP_TEXT", "h": [1, 2, 0, 0, k],
                                "v": {"source": 0, "reserved1": 0, "reserved2": 0},
                                "text": ["pat", "t", max(0, (1 << k) + d - 49)], "term": True}, opaque_of(24)],
                       "lv": mix(k, d, n, 3) % 10, "buf": buf, "via": mix(k, d, n, 4) % 3}


def kind_sweep(tier):
    from .props import codec

    for i, k in enumerate(m.KINDS.values()):
        for j, o in enumerate(codec.variants(k)):
            for lv, buf in ((0, 1 << 20), (6, DEFAULT_BUF), (9, 37), (1, 64), (0, 11)):
                yield {"objs": [o, codec.ramp(k), o], "lv": lv, "buf": buf, "via": (i + j + lv) % 3}


def edge_sweep(tier):
    """Payloads sized around the default buffer and its multiples, payloads made of signatures."""
    for n in (131072 - 17, 131072 - 16, 131072 - 15, 131072, 131073, 262144 - 16, 262144 + 8, 393216):
        for lv in (0, 6):
            yield {"objs": [opaque_of(16 + 8), opaque_of(n + 16, fill=b"LOBJ"), opaque_of(40)],
                   "lv": lv, "buf": DEFAULT_BUF, "via": 0}
    for pat in gen.PATTERNS:
        for n in (1, 3, 4, 7, 8, 20, 100, 1000):
            for buf in (8, 64, 1000, 1 << 20):
                for lv in (0, 6):
                    yield {"objs": [opaque_of(16 + n, fill=pat), opaque_of(24),
                                    opaque_of(16 + n + 1, fill=pat)], "lv": lv, "buf": max(buf, n // 200),
                           "via": 1}
    for lv in range(10):
        for n in (0, 1, 2, 30):
            yield {"objs": {"rep": [opaque_of(100)], "n": n}, "lv": lv, "buf": 512, "via": 0,
                   "enum": 1, "tgt": "path"}
    for lv, n in ((0, 2800), (6, 5700)):
        yield {"objs": {"rep": [opaque_of(48)], "n": n}, "lv": lv, "buf": DEFAULT_BUF, "via": 0}


def scale_sweep(tier):
    """Counts of objects and containers beyond 16 bits, objects and buffers beyond 24 bits."""
    yield {"objs": {"rep": [opaque_of(24, fill=b"a"), opaque_of(17, fill=b"b"), opaque_of(40, fill=b"c")], "n": 66000},
           "lv": 0, "buf": DEFAULT_BUF, "via": 0}
    yield {"objs": {"rep": [opaque_of(24, fill=b"a"), opaque_of(32, fill=b"b"), opaque_of(41, fill=b"c")], "n": 140000},
           "lv": 6, "buf": 1 << 22, "via": 0}
    yield {"objs": {"rep": [opaque_of(24, fill=b"a"), opaque_of(24, fill=b"b"), opaque_of(24, fill=b"c")], "n": 66000},
           "lv": 0, "buf": 24, "via": 0}
    yield {"objs": {"rep": [opaque_of(24, fill=b"a"), opaque_of(17, fill=b"b"), opaque_of(28, fill=b"c")], "n": 72000},
           "lv": 1, "buf": 40, "via": 0}
    yield {"objs": [opaque_of(16), opaque_of(66000), opaque_of(19)], "lv": 0, "buf": 1, "via": 0}
    for lv in (0, 1, 9):
        yield {"objs": [opaque_of(40), opaque_of((1 << 20) + 3, fill=b"LOBJ\1"), opaque_of(40)], "lv": lv,
               "buf": 1000 + lv, "via": 0}
    for n, buf in ((3 << 20, 1 << 24), (1 << 20, 1 << 18)):  # the highest compression ratios
        yield {"objs": [opaque_of(40), opaque_of(n, fill=b"\0"), opaque_of(n + 3, fill=b"\0"), opaque_of(40)], "lv": 9,
               "buf": buf, "via": 0}
    for lv, n, buf in ((0, (1 << 24) + 5, DEFAULT_BUF), (1, (1 << 24) + 5, 1 << 24), (1, 1 << 24, 1 << 26),
                       (0, 1 << 25, 1 << 20)):
        yield {"objs": [opaque_of(40), opaque_of(n, fill=bytes(range(256)) + b"\0"), opaque_of(40)], "lv": lv,
               "buf": buf, "via": 0}


KINDS = list(m.KINDS.values())


def logint(rnd, bits):
    """Log-uniform from 1 to 2**bits."""
    return int(2 ** (rnd.random() * bits))


@functools.lru_cache(None)
def lookalikes():
    """Data that a reader might take for something else than the content of an object."""
    text = b"The quick brown fox jumps over the lazy dog. " * 7
    inner = m.encode(opaque_of(40, fill=b"in"))
    out = [zlib.compress(text, n) for n in (0, 1, 6, 9)]
    out += [zlib.compress(inner, 6), zlib.compress(b"", 6), zlib.compress(text)[2:], gzip.compress(text, mtime=0), bz2.compress(text), lzma.compress(text)]
    out += [m.container(inner, 0, len(inner)), m.container(zlib.compress(inner), 2, len(inner)), inner, inner + b"\0" * 3 + inner[:20]]
    out += [m.file_header(level=0), m.file_header(level=6) + m.container(inner, 0, len(inner)), b"LOGG", b"LOBJ" * 5]
    out += [b"LOBJ\x10\0\1\0" + n.to_bytes(4, "little") + t.to_bytes(4, "little") for n in (0, 15, 16, 17, 1 << 31, (1 << 32) - 1) for t in (1, 10, 65)]
    out += [b"\xef\xbb\xbftext", b"\0" * 64, b"\xff" * 64, b"\x1a" * 5, b"\r\n" * 9, b"PK\3\4" + text, b"(\xb5/\xfd" + text, b"\x04\x22\x4d\x18" + text]
    return out


def lookalike_sweep(tier):
    """Objects whose content looks like something else, right where a container starts or ends."""
    for i, x in enumerate(lookalikes()):
        n = max(16, len(x))
        for j, body in enumerate((bytes(n - 16) + x, bytes(n - 16) + x * 3, bytes(n - 15) + x, x)):
            o = {"t": "OPAQUE", "code": 22, "hs": 32, "hv": 1, "body": body}
            for buf in {n, 16, 8 * n, 1 << 17}:
                for lv in (0, 6):
                    yield {"objs": [o, KINDS_ONE, o], "lv": lv, "buf": max(buf, (16 + len(body)) // 200), "via": 0, "enum": (i + j) % 2, "tgt": "mem"}


def lookalike_files(tier):
    for i, x in enumerate(lookalikes()):
        o = {"t": "OPAQUE", "code": 22, "hs": 32, "hv": 1, "body": x}
        p = {"t": "OPAQUE", "code": 22, "hs": 32, "hv": 1, "body": b"ab" + x * 2}
        for lv in (0, 6):
            for store in ((), (0, 1, 0, 1), (1, 0, 1), (1, 1, 1, 1)):
                for objs, cuts in (([o], [16]), ([o, o], [16, 16 + len(x), 32 + len(x)]), ([p], [18, 18 + len(x)]), ([KINDS_ONE, p, o], [17, 48, 66]),
                                   ([o, p], [15, 17]), ([o], [0, 16, 16, 16 + len(x)])):
                    yield {"level": lv, "segs": [{"k": "run", "objs": objs, "cuts": cuts, "fill": [], "end": b"", "store": list(store), "pad": [], "hs": 16}],
                           "tail": b""}
            yield {"level": lv, "segs": [{"k": "bare", "objs": [o, p, KINDS_ONE], "fill": []}], "tail": b""}


KINDS_ONE = {"t": "CAN_MESSAGE", "h": [1, 2, 0, 0, 5], "v": {"channel": 1, "flags": 0, "dlc": 8, "frame_id": 0x123, "data": b"\x78\x9c\x01\0LOBJ"}}


def stir_object(rnd, top=17):
    """Any object: of a supported kind, a row of related values, a long text, an unknown kind of any size."""
    from .props import codec

    x = rnd.random()
    if x < 0.35:
        fill = rnd.choice([bytes([rnd.randrange(256)]), b"LOBJ", noise(257), noise(5003), b"\0", b"\xff", b"\0L\0LOB", bytes(range(256)), rnd.choice(lookalikes()), m.encode(dict(rnd.choice(codec.variants(rnd.choice(KINDS)))))])
        hs = rnd.choice([16, 32, 32, 40, 24, 0, 65535, rnd.randrange(65536)])
        size = rnd.randrange(24) if rnd.random() < 0.3 else logint(rnd, top)
        code = rnd.choice(UNKNOWN)
        while rnd.random() < 0.5 or code in m.IMPLEMENTED or code == 10:
            code = rnd.getrandbits(rnd.choice([8, 16, 31, 32]))
        return {"t": "OPAQUE", "code": code, "hs": hs, "hv": rnd.choice([1, 1, 2, 0, 65535]), "body": ["pat", fill, size]}
    k = rnd.choice(KINDS)
    if x < 0.45 and k.name in m.STRINGS:
        o = codec.row(k, rnd)
        s = rnd.choice(list(m.STRINGS[k.name]))
        o[s] = ["pat", rnd.choice(["t", "LOBJ", "x\n", "\xe4"]), logint(rnd, min(top, 15))]
    else:
        o = codec.row(k, rnd) if x < 0.8 else dict(rnd.choice(codec.variants(k)))
    if rnd.random() < 0.6:  # time stamps of all magnitudes
        o["h"] = [*o["h"][:4], rnd.getrandbits(rnd.randrange(1, 65))]
    return o


UNKNOWN = [c for c in range(140) if c not in m.IMPLEMENTED and c != 10]


def stir(i, top=17, most=9):
    """Session number *i*: everything varies on its own, sizes and counts evenly over their magnitudes."""
    rnd = random.Random(f"stir {i}")
    distinct = [stir_object(rnd, top) for _ in range(rnd.choice([0, 1, 1, 2, 2, 3, 5, 8, 13]))]
    n = 0 if not distinct else logint(rnd, most) if rnd.random() < 0.5 else len(distinct)
    objs = [distinct[j] if j < len(distinct) and rnd.random() < 0.7 else rnd.choice(distinct) for j in range(n)]
    sizes = [m.osize(o) for o in objs]
    while sum(sizes) > 1 << 21:
        sizes.pop()
        objs.pop()
    total = sum((s + 7) // 8 * 8 for s in sizes)
    buf = logint(rnd, 21)
    if sizes and rnd.random() < 0.4:  # right where something fits, or just does not
        j = rnd.randrange(len(sizes)) + 1
        buf = max(1, sum((s + 7) // 8 * 8 for s in sizes[rnd.randrange(j):j]) + rnd.choice([-9, -8, -7, -4, -1, 0, 0, 1, 4, 7, 8, 32]))
    if rnd.random() < 0.3:
        buf = max(1, buf // 8 * 8)
    return {"objs": objs, "lv": rnd.randrange(10), "buf": max(buf, total // 2000 + 1), "via": rnd.randrange(3), "enum": rnd.randrange(2),
            "tgt": "path" if rnd.random() < 0.1 else "mem"}


def stir_sweep(tier):
    for i in range(4500 if tier == "quick" else 90000):
        yield stir(i)


def stir_filler(rnd, top=10):
    x = rnd.random()
    if x < 0.5:
        return b""
    pat = rnd.choice([b"\0", b"\0", b"L", b"LO", b"LOB", b"\0LOB", b"OBJ", b"\xff", b"LLO", noise(61), b"LOGG", b"lobj"])
    return ["pat", pat, rnd.randrange(9) if x < 0.75 else logint(rnd, top)]


def stir_file(i, top=13, most=7):
    """File number *i* for the independent builder: everything varies on its own."""
    rnd = random.Random(f"file {i}")
    level = rnd.choice([0, 0, 0, *range(1, 10), 6, 1, rnd.randrange(256)])
    spec = {"level": level, "segs": [], "tail": stir_filler(rnd)}
    for _ in range(rnd.choice([0, 1, 1, 1, 1, 2, 2, 3, 6])):
        distinct = [stir_object(rnd, top) for _ in range(rnd.choice([0, 1, 2, 3, 5, 8]))]
        n = 0 if not distinct else logint(rnd, most) if rnd.random() < 0.5 else len(distinct)
        objs = [distinct[j] if j < len(distinct) and rnd.random() < 0.7 else rnd.choice(distinct) for j in range(n)]
        fill = [stir_filler(rnd) for _ in range(rnd.randrange(n + 1))] if rnd.random() < 0.6 else []
        if rnd.random() < 0.2:
            spec["segs"].append({"k": "bare", "objs": objs, "fill": fill})
            continue
        end = stir_filler(rnd)
        total, marks = 0, [0]
        for j, o in enumerate(objs):
            total += len(m.clean_filler(m.B(fill[j]))) if j < len(fill) else 0
            marks.append(total)
            total += m.osize(o)
            marks.append(total)
        total += len(m.clean_filler(m.B(end)))
        x = rnd.random()
        if x < 0.35:  # gaps of all magnitudes
            cuts, at = [], 0
            while at < total and len(cuts) < 300:
                at += logint(rnd, 14) - (rnd.random() < 0.5)
                cuts.append(min(at, total))
        elif x < 0.5:  # regular pieces
            step = max(1, logint(rnd, 14), total // 400)
            cuts = list(range(step, total, step))
        else:
            cuts = [min(total, max(0, rnd.choice(marks) + rnd.choice([0, 0, 1, 2, 3, 4, -1, -2, -3, 8, 12, 16, 20, 24, 31, 32, 33, -8]))) if rnd.random() < 0.8
                    else rnd.randrange(total + 1) for _ in range(rnd.choice([0, 1, 1, 2, 3, 5, 8, 20]))]
        seg = {"k": "run", "objs": objs, "fill": fill, "end": end, "cuts": cuts, "hs": rnd.choice([16, 16, 32]),
               "pad": [stir_filler(rnd) for _ in range(rnd.randrange(len(cuts) + 2))] if rnd.random() < 0.5 else
                      [["pat", b"\0", rnd.randrange(4)] for _ in cuts],
               "store": [int(rnd.random() < 0.4) for _ in range(rnd.randrange(len(cuts) + 2))] if rnd.random() < 0.6 else []}
        if level:
            seg["lv"] = rnd.randrange(10)
            if rnd.random() < 0.3:
                seg["z"] = [rnd.randrange(9, 16), rnd.randrange(1, 10), rnd.randrange(5), rnd.choice([0, 0, 1, 7, 100, 4096]), rnd.randrange(3)]
        if rnd.random() < 0.3:
            seg["spare"] = [rnd.getrandbits(16), rnd.getrandbits(32), rnd.getrandbits(32)]
            seg["hv"] = rnd.choice([0, 1, 2, 65535])
        spec["segs"].append(seg)
    if rnd.random() < 0.3:
        spec["hdr"] = {"api": rnd.getrandbits(32), "app": rnd.getrandbits(8), "major": rnd.getrandbits(8), "minor": rnd.getrandbits(8),
                       "fsize": rnd.getrandbits(rnd.choice([1, 16, 32, 64])), "usize": rnd.getrandbits(rnd.choice([1, 16, 32, 64])),
                       "count": rnd.getrandbits(rnd.choice([1, 8, 32])), "build": rnd.getrandbits(32),
                       "start": [rnd.getrandbits(16) for _ in range(8)], "last": [rnd.getrandbits(16) for _ in range(8)],
                       "restore": rnd.getrandbits(64), "reserved": rnd.randbytes(64)}
    return spec


def stir_files(tier, n=2500, **kw):
    for i in range(n if tier == "quick" else n * 24):
        yield stir_file(i, **kw)
