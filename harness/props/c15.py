"""C15: damaged input."""
import base64
import bz2
import contextlib
import gzip
import lzma
import os
import pathlib
import random
import struct
import zlib

from hypothesis import strategies as st

from .. import gen, model as m, session
from ..core import Search, Sweep, Violation, expect, fail
from ..vb import BlfReader, G, Source, memory_limit, scratch
from . import c02, codec

META = {
    "level": "exploration",
    "technique": "mutation fuzzing (Hypothesis, structure-aware) with an explicit damage oracle",
    "rule": "One case = a well-formed file and a list of mutations (bytes set, inserted, deleted, duplicated,"
            " truncated; object sizes, types, header sizes, storage methods and length fields forced to"
            " boundary values; nested containers; noise), or raw bytes.  Sweeps set every byte of fixed files"
            " to several values and force every object size 0..80.  Oracle: rejection of bad headers,"
            " termination with bounded work, only the three decoding errors, objects complete before the"
            " first damaged byte delivered unaltered, no object spans more than it declares.  Non-trivial:"
            " the damage is behind the file header and at least one object precedes it or follows it.",
    "assumptions": ["address space is limited to 384 MiB more than before reading",
                    "work is bounded by 40 source calls per byte and 40 s of CPU time"],
}
OK = (ValueError, struct.error, zlib.error)
HEADROOM = 384 << 20
SIZES = [0, 1, 2, 4, 8, 15, 16, 17, 20, 31, 32, 33, 40, 47, 48, 49, 64, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0,
         0xFFFFFFFF, 65536]


def base_specs():
    K, T, U = c02.CAN, c02.TXT, c02.UNK
    yield {"level": 0, "segs": [c02.seg([K, T, U, K], [40, 60, 61]), c02.seg([K, U], [])], "tail": b"\0"}
    yield {"level": 6, "segs": [c02.seg([K, T], [30]), c02.seg([U, K, K], [10, 60], store=[0, 1])],
           "tail": b""}
    yield {"level": 0, "segs": [{"k": "bare", "objs": [K, T, U], "fill": [b"", b"L"]}, c02.seg([K], [])],
           "tail": b""}


def sweep(tier):
    for spec in base_specs():
        data = m.build_file(spec)[0]
        for pos in range(0, len(data)):
            for v in (0, 1, 0x4C, 0x7F, 0x80, 0xFF):
                yield {"spec": spec, "mut": [["set", pos, bytes([v])]]}
            yield {"spec": spec, "mut": [["xor", pos, bytes([0x10])]]}
            yield {"spec": spec, "mut": [["del", pos, 1]]}
            yield {"spec": spec, "mut": [["ins", pos, b"L"]]}
            if pos % 5 == 0:
                yield {"spec": spec, "mut": [["set", pos, b"\xff" * 4]]}
                yield {"spec": spec, "mut": [["ins", pos, b"LOBJ"]]}
                yield {"spec": spec, "mut": [["dup", pos, 20, pos + 7]]}
    # declared sizes of an object inside and outside a container
    for size in [*range(0, 81), 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFFF]:
        for code in (1, 10, 65, 92, 5, 0x999, 0):
            for lv in (0, 6):
                bad = b"LOBJ" + struct.pack("<HHII", 32, 1, size, code) + bytes(range(24))
                for shape in ("bare", "in", "split"):
                    yield {"bad": bad, "shape": shape, "lv": lv}
    # sizes that are only declared: no memory may be reserved for them
    for size in (1 << 20, 1 << 27, 0x20000000, 0x3FFFFFFF, 0x7FFFFFEF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFFF):
        for src in ("path", "raw", "file", "mem"):
            for lv in (0, 6):
                for code in (1, 10, 65, 0x999):
                    for shape in ("bare", "in", "split"):
                        yield {"bad": b"LOBJ" + struct.pack("<HHII", 32, 1, size, code) + bytes(24), "shape": shape,
                               "lv": lv, "src": src}
                for method in (0, 1, 2):  # a container that overstates its content
                    raw = m.encode(c02.CAN) * 2
                    yield {"bad": m.container(zlib.compress(raw) if method else raw, method, size), "shape": "bare",
                           "lv": lv, "src": src}
    # every kind cut short or overstated
    for k in m.KINDS.values():
        for o in codec.variants(k):
            raw = m.encode(o)
            for size in sorted({16, 20, 31, 32, 33, 36, len(raw) // 2, len(raw) - 1, len(raw) + 1,
                                *range(32, len(raw), 8)}):
                body = (raw[:8] + struct.pack("<I", size) + raw[12:] + bytes(64))[:size]
                yield {"bad": body, "shape": "in", "lv": 0}
            for pos in range(32, len(raw)):
                for v in (0, 0xFF, 0x81):
                    yield {"bad": raw[:pos] + bytes([v]) + raw[pos + 1 :], "shape": "in", "lv": 0}
            for pos in range(32, len(raw) - 3, 2):
                for v in (b"\xff" * 4, b"\0\0\0\x80", b"\xff\xff\xff\x7f", b"\0\0\1\0"):
                    yield {"bad": raw[:pos] + v + raw[pos + 4 :], "shape": "in", "lv": 0}
    for n in (1, 2, 10, 60, 64, 65, 100, 500, 1500, 4000):
        for lv in (0, 1):
            yield {"nest": n, "lv": lv}
    for n in range(0, 200):
        yield {"raw": b"LOGG" + bytes(n)}
        yield {"raw": bytes(n)}
        yield {"raw": m.file_header()[:n]}
        yield {"raw": m.file_header()[:n], "src": "path"}
        yield {"raw": b"LOGF" + m.file_header()[4:] + bytes(n), "src": "path"}
    for p in range(4):
        h = bytearray(m.file_header())
        for v in (0, 0x20, 0xFF):
            h[p] ^= v or 1
            yield {"raw": bytes(h) + b"LOBJ" * 10}
    # whole logs in something else, or behind something else
    good = [m.build_file(spec)[0] for spec in base_specs()]
    for data in good:
        for raw in (gzip.compress(data, mtime=0), bz2.compress(data), lzma.compress(data), zlib.compress(data), data.hex().encode(), base64.b64encode(data),
                    *(x + data for x in (b"\0", b"\n", b" ", b"\xef\xbb\xbf", b"LOG", b"LOBJ", bytes(4), bytes(144), m.file_header()[1:])),
                    data[::-1], data[:4][::-1] + data[4:], data[144:], data[148:], data[:4].lower() + data[4:], b"".join(data[i : i + 2][::-1] for i in range(0, len(data), 2))):
            for src in ("path", "mem", "raw"):
                yield {"raw": raw, "src": src}


@st.composite
def mutation(draw, n, marks):
    near = st.builds(lambda b, d: max(0, min(n, b + d)), st.sampled_from(marks), st.integers(-4, 40))
    pos = draw(st.one_of(near, near, st.integers(0, n)))
    kind = draw(st.sampled_from(["set", "set", "xor", "ins", "del", "dup", "trunc", "size", "size", "type",
                                 "hsize", "method", "zero", "len"]))
    noise = st.one_of(st.binary(min_size=1, max_size=8), st.sampled_from(
        [b"LOBJ", b"LOB", b"\xff" * 4, bytes(4), b"\x0a\0\0\0", b"LOBJ\x20\0\1\0", b"LOGG", bytes(16)]))
    k = draw(st.integers(0, max(0, len(marks) - 1)))
    if kind in ("set", "xor", "ins"):
        return [kind, pos, draw(noise)]
    if kind == "del":
        return [kind, pos, draw(st.sampled_from([1, 2, 4, 8, 16, 40]))]
    if kind == "dup":
        return [kind, pos, draw(st.integers(1, 80)), draw(st.integers(0, n))]
    if kind == "trunc":
        return [kind, pos]
    if kind == "zero":
        return ["set", pos, bytes(draw(st.sampled_from([4, 16, 32, 100])))]
    at = marks[k]
    if kind == "size":
        return ["set", at + 8, struct.pack("<I", draw(st.one_of(st.sampled_from(SIZES), gen.uint(32))))]
    if kind == "type":
        return ["set", at + 12, struct.pack("<I", draw(st.one_of(st.integers(0, 130), gen.uint(32))))]
    if kind == "hsize":
        return ["set", at + 4, struct.pack("<H", draw(gen.uint(16)))]
    if kind == "method":
        return ["set", at + 16, struct.pack("<H", draw(st.sampled_from([0, 1, 2, 3, 0xFFFF])))]
    return ["set", at + 32 + draw(st.integers(0, 40)), struct.pack("<I", draw(gen.uint(32)))]


@st.composite
def cases(draw):
    spec = draw(gen.file_spec(5))
    data = m.build_file(spec)[0]
    marks = [0, 144]
    p = data.find(b"LOBJ")
    while p >= 0 and len(marks) < 200:
        marks.append(p)
        p = data.find(b"LOBJ", p + 4)
    muts = draw(st.lists(mutation(len(data), marks), min_size=1, max_size=4))
    c = {"spec": spec, "mut": muts}
    if draw(st.integers(0, 9)) == 0:
        c["src"] = draw(st.sampled_from(["raw", "path"]))
    return c


@st.composite
def inner(draw):
    """Damage inside the (then re-compressed) object stream."""
    objs = draw(st.lists(gen.stream_object(), min_size=1, max_size=5))
    stream = b"".join(m.encode(o) for o in objs)
    marks, pos = [0], 0
    for o in objs:
        pos += m.osize(o)
        marks.append(pos)
    return {"objs": objs, "imut": draw(st.lists(mutation(len(stream), marks), min_size=1, max_size=3)),
            "lv": draw(gen.levels), "cut": draw(st.integers(0, len(stream)))}


@st.composite
def noise(draw):
    parts = st.one_of(st.binary(max_size=40), st.sampled_from(
        [b"LOBJ", b"LOBJ\x20\0\1\0", b"\x30\0\0\0", b"\x0a\0\0\0", b"\1\0\0\0", bytes(32), b"\0", b"LOB",
         zlib.compress(b"LOBJ" * 9), b"\x10\0\1\0", b"\x56\0\0\0", m.encode(c02.CAN), m.encode(c02.TXT),
         m.container(m.encode(c02.CAN) * 2, 0, 96), b"\x41\0\0\0", b"\xff\xff\xff\xff"]))
    head = draw(st.sampled_from([b"", b"LOGG", m.file_header(), m.file_header(level=6), m.file_header()[:143]]))
    return {"raw": head + b"".join(draw(st.lists(parts, max_size=14)))}


def stir_sweep(tier):
    """Files of any shape with damage of any kind."""
    rnd = random.Random(15)
    for i in range(2500 if tier == "quick" else 80000):
        spec = session.stir_file(i + (1 << 24), 10, 5)
        data = m.build_file(spec)[0]
        marks, p = [144], data.find(b"LOBJ", 144)
        while p >= 0 and len(marks) < 300:
            marks.append(p)
            p = data.find(b"LOBJ", p + 4)
        muts = []
        for _ in range(rnd.choice([1, 1, 1, 2, 3, 5])):
            at, pos = rnd.choice(marks), rnd.randrange(144 if rnd.random() < 0.9 else 0, len(data) + 1)
            word = struct.pack("<I", rnd.choice([rnd.choice(SIZES), session.logint(rnd, 32), rnd.getrandbits(32)]))
            muts.append(rnd.choice([
                ["set", pos, rnd.randbytes(rnd.choice([1, 1, 2, 4, 8, 40]))], ["xor", pos, bytes([1 << rnd.randrange(8)])],
                ["ins", pos, rnd.choice([b"LOBJ", b"\0", b"L", rnd.randbytes(session.logint(rnd, 7)), bytes(session.logint(rnd, 9))])],
                ["del", pos, session.logint(rnd, 9)], ["dup", pos, session.logint(rnd, 9), rnd.choice(marks)], ["trunc", pos],
                ["set", at + 8, word], ["set", at + 8, word], ["set", at + 12, word], ["set", at + 12, struct.pack("<I", rnd.randrange(130))],
                ["set", at + 4, word[:2]], ["set", at + 16, word[:2]], ["set", at + 24, word], ["set", at + rnd.randrange(80), word],
                ["set", pos, bytes(session.logint(rnd, 8))]]))
        c = {"spec": spec, "mut": muts}
        if rnd.random() < 0.15:
            c["src"] = rnd.choice(["raw", "path", "file"])
        yield c


def sweeps():
    return [Sweep("systematic", sweep), Sweep("stir", stir_sweep)]


def searches():
    return [Search("mutated files", cases(), 4000, 600000), Search("inner damage", inner(), 2500, 400000),
            Search("noise", noise(), 2500, 400000)]


def apply(data, muts):
    d = bytearray(data)
    for mu in muts:
        k = mu[0]
        if k == "set":
            p = min(mu[1], len(d))
            end = min(len(d), p + len(mu[2]))
            d[p:end] = mu[2][: end - p]
        elif k == "xor":
            for i, b in enumerate(mu[2]):
                if mu[1] + i < len(d):
                    d[mu[1] + i] ^= b
        elif k == "ins":
            d[mu[1] : mu[1]] = mu[2]
        elif k == "del":
            del d[mu[1] : mu[1] + mu[2]]
        elif k == "dup":
            d[mu[3] : mu[3]] = d[mu[1] : mu[1] + mu[2]]
        elif k == "trunc":
            del d[mu[1] :]
    return bytes(d)


def first_diff(a, b):
    n = min(len(a), len(b))
    if a[:n] == b[:n]:
        return n if len(a) != len(b) else None
    lo, hi = 0, n  # a[:lo] equal
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if a[:mid] == b[:mid]:
            lo = mid
        else:
            hi = mid
    return lo


def consume(data, src, cap):
    """-> (objects, exception or None); raises Violation on forbidden behaviour."""
    path = None
    if src == "mem":
        arg = Source(data)
    else:
        path = os.path.join(scratch(), "d.blf")
        pathlib.Path(path).write_bytes(data)
        arg = path if src == "path" else open(path, "rb", buffering=0) if src == "raw" else open(path, "rb")
    try:
        with memory_limit(HEADROOM):
            return _consume(data, arg, cap)
    finally:
        if path:
            if not isinstance(arg, str):
                arg.close()
            os.unlink(path)


def still_open(path):
    path = os.path.realpath(path)
    for fd in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            if os.readlink("/proc/self/fd/" + fd) == path:
                return True
    return False


def _consume(data, arg, cap):
    got, exc, r = [], None, None
    try:
        bad_header = len(data) < 144 or data[:4] != b"LOGG"
        try:
            r = BlfReader(arg)
        except OK as e:
            expect(isinstance(e, ValueError) or not bad_header,
                   f"bad file header raises {type(e).__name__}: {e}")
            if isinstance(arg, str) and bad_header:
                expect(not still_open(arg), f"the rejected file is still open ({e})")
            return got, e, bad_header
        if bad_header:
            fail(f"{len(data)} bytes starting with {data[:4]!r} accepted as a log")
        try:
            while len(got) <= cap:
                o = r.read_object()
                if o is None:
                    break
                got.append(o)
        except OK as e:
            exc = e
        # asking again must not fail in another way either
        try:
            r.read_object()
        except OK:
            pass
        return got, exc, False
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{type(e).__name__} after {len(got)} objects: {str(e)[:200]}") from e
    finally:
        if r is not None and isinstance(arg, str):
            r.__exit__(None, None, None)


def check(name, case, rec):
    intact, p = [], None
    if "raw" in case:
        data = case["raw"]
    elif "nest" in case:
        inner_ = m.encode(c02.CAN)
        for i in range(case["nest"]):
            if case["lv"]:
                # keep sizes small: stored containers inside, compressed outermost
                inner_ = m.container(inner_, 0, len(inner_))
            else:
                inner_ = m.container(inner_, 0, len(inner_))
        data = m.file_header(level=case["lv"]) + inner_
    elif "bad" in case:
        K, T = m.encode(c02.CAN), m.encode(c02.TXT)
        lv = case["lv"]

        def cont(b):
            return m.container(zlib.compress(b, lv) if lv else b, 2 if lv else 0, len(b))

        bad = case["bad"]
        first = m.file_header(level=lv) + cont(K + T)
        p = len(first)
        intact = [c02.CAN, c02.TXT]
        if case["shape"] == "bare":
            data = first + bad + cont(K + T)
        elif case["shape"] == "in":
            data = first + cont(T + bad + K) + cont(K)
            intact.append(c02.TXT)
        else:
            data = first + cont(T + bad[:10]) + cont(bad[10:] + K) + cont(K)
            intact.append(c02.TXT)
    elif "imut" in case:
        stream = b"".join(m.encode(o) for o in case["objs"])
        mut = apply(stream, case["imut"])
        d = first_diff(stream, mut)
        pos = 0
        for o in case["objs"]:
            pos += m.osize(o)
            if d is None or pos <= d:
                intact.append(o)
        lv = case["lv"]
        cut = min(case["cut"], len(mut))
        data = m.file_header(level=lv)
        for part in (mut[:cut], mut[cut:]):
            data += m.container(zlib.compress(part, lv) if lv else part, 2 if lv else 0, len(part))
    else:
        orig, objs, ready = m.build_file(case["spec"])
        data = apply(orig, case["mut"])
        p = first_diff(orig, data)
        if p is None:
            p = len(orig)
            rec.label("no effective damage")
        intact = [o for o, r in zip(objs, ready) if r <= p] if p >= 144 else []
        if p >= 144 and (intact or len(objs)):
            rec.hit("damage behind the header")
    cap = 20000 + len(data) // 8
    got, exc, bad_header = consume(data, case.get("src", "mem"), cap)
    if bad_header:
        rec.label("header rejected")
        return
    for i, o in enumerate(intact):
        if i >= len(got):
            fail(f"object {i} of {len(intact)} intact ones is missing"
                 f" ({'ended with ' + type(exc).__name__ if exc else 'ended normally'})")
        try:
            m.check_object(got[i], o)
        except m.Mismatch as e:
            raise Violation(f"intact object {i} was altered: {e}") from None
    for i, g in enumerate(got):
        size = g.header.base.object_size
        expect(size >= 16, lambda: f"object {i} declares {size} bytes and was delivered as {str(g)[:200]}")
        if isinstance(g, G.NotImplementedObject):
            expect(len(g.buffer) == size,
                   f"object {i} declares {size} bytes but spans {len(g.buffer)}")
    if intact:
        rec.hit("intact objects before the damage")
    if exc is not None:
        rec.label("raised " + type(exc).__name__)
    elif len(got) > len(intact):
        rec.label("objects after or at the damage")
    else:
        rec.label("ended")
