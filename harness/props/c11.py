"""C11: a log abandoned at any point of a writing session."""
import bisect
import contextlib
import io
import os
import random

from hypothesis import strategies as st

from .. import gen, model as m, session
from ..core import Search, Sweep, Violation, expect, lib
from ..vb import BlfReader, BlfWriter, OpSink, Source, drain, same_objects, scratch

META = {
    "level": "fault_enumeration",
    "technique": "property-based testing with crash injection: every recorded file write cut at enumerated bytes",
    "rule": "One case = a write session.  All operations on the underlying file are recorded; every prefix of"
            " the operation sequence and byte prefixes of each single write (all bytes near both ends of a"
            " write, a grid inside; all bytes in the sweeps) give crash images.  Every image is one"
            " evaluation: it must read back as an unaltered prefix of the objects and, after each write"
            " call, must hold every object followed by at least a buffer's worth of object bytes."
            "  In the path and file stages the image is the real file as another handle sees it after each call; long"
            " sessions are sampled."
            "  Images shorter than the file header are exempt.  Non-trivial: an image that holds some but"
            " not all objects.",
    "assumptions": ["the underlying file applies writes in order and keeps a byte prefix of the torn write",
                    "for a log given by path, what another handle of the file sees after a write call is what the"
                    " death of the process leaves behind"],
}


class RawSink(io.RawIOBase):
    """Unbuffered recording file below a BufferedRandom."""

    def __init__(self):
        super().__init__()
        self.data = bytearray()
        self.pos = 0
        self.ops = []

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def write(self, b):
        b = bytes(b)
        self.ops.append((self.pos, b))
        self.data[self.pos : self.pos + len(b)] = b
        self.pos += len(b)
        return len(b)

    def readinto(self, b):
        chunk = self.data[self.pos : self.pos + len(b)]
        b[: len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else (self.pos if whence == 1 else len(self.data)) + off
        return self.pos

    def tell(self):
        return self.pos


def dense(case):
    return {**case, "grid": 1}


def sweep(tier):
    K = {"t": "CAN_MESSAGE", "h": [1, 2, 0, 0, 1],
         "v": {"channel": 1, "flags": 0, "dlc": 8, "frame_id": 9, "data": b"LOBJLOBJ"}}
    U = session.opaque_of(37, fill=b"LOBJ\0")
    B = session.opaque_of(300, fill=b"L")
    for lv in (0, 1, 6, 9):
        for buf in (1 << 17, 400, 128, 96, 50, 24):
            yield dense({"objs": [K, U, K, B, U, K], "lv": lv, "buf": buf, "via": 0})
        yield dense({"objs": [], "lv": lv, "buf": 100, "via": 0})
        yield dense({"objs": [K], "lv": lv, "buf": 48, "via": 0})
    for i, s in enumerate(session.size_sweep(tier)):
        if i % (9 if tier == "quick" else 1) == 0:
            yield {**s, "grid": 8}
    for n in (2500, 6000):
        yield {"objs": {"rep": [session.opaque_of(64), session.opaque_of(17)], "n": n}, "lv": n % 2,
               "buf": 131072, "via": 0, "grid": 30000, "stage": "buffered"}
        yield {"objs": {"rep": [session.opaque_of(64), session.opaque_of(17)], "n": n}, "lv": n % 2,
               "buf": 131072, "via": 0, "grid": 30000}
    for n, buf, lv in ((40000, 4096, 0), (14000, 50, 0), (30000, 20000, 1), (60, 100, 0)):
        objs = {"rep": [session.opaque_of(n // 8)] if n == 60 else [session.opaque_of(64), session.opaque_of(33)], "n": n}
        yield {"objs": objs, "lv": lv, "buf": buf, "via": 0, "grid": 1 << 20, "every": 40}
    yield {"objs": {"rep": [session.opaque_of(300000), K], "n": 24}, "lv": 0, "buf": 131072, "via": 0, "grid": 1 << 20,
           "every": 4}
    for stage in ("path", "file"):
        for n, buf in ((63, 1024), (100, 100), (300, 1000), (300, 3000), (700, 8192), (1500, 9000), (3000, 60000), (5000, 131072)):
            for lv in (0, 6):
                yield {"objs": {"rep": [session.opaque_of(64), session.opaque_of(41, fill=b"LOBJ")], "n": n}, "lv": lv, "buf": buf,
                       "via": 0, "every": 60, "stage": stage}
    yield {"objs": [session.opaque_of(5000), K, K, session.opaque_of(900), K], "lv": 0, "buf": 64, "via": 0,
           "grid": 64}


@st.composite
def cases(draw):
    c = draw(session.sessions(8, tgt=False))
    total = gen.stream_sizes(c["objs"])
    c["buf"] = max(c["buf"], total // 40, 1)
    c["grid"] = draw(st.sampled_from([5, 17, 64]))
    c["stage"] = draw(st.sampled_from(["direct"] * 6 + ["buffered", "path", "file"]))
    c["every"] = 1 if c["stage"] in ("direct", "buffered") else 60
    c["level_first"] = 0
    return c


def stir_sweep(tier):
    rnd = random.Random(11)
    for i in range(300 if tier == "quick" else 12000):
        c = session.stir(i + (1 << 21), 10, 5)
        c.pop("tgt")
        c["buf"] = max(c["buf"], gen.stream_sizes(c["objs"]) // 40, 1)
        stage = rnd.choice(["direct"] * 6 + ["buffered", "path", "file"])
        yield {**c, "grid": rnd.choice([5, 17, 64]), "stage": stage, "every": 1 if stage in ("direct", "buffered") else 60}


def sweeps():
    return [Sweep("every write", sweep), Sweep("stir", stir_sweep)]


def searches():
    return [Search("sessions", cases(), 700, 60000)]


def images(ops, grid, cap=400, every=1):
    """(operation index complete before, image bytes) for every enumerated crash point."""
    img = bytearray()
    if every > 1:  # about *every* images, between whole operations
        step = max(1, len(ops) // every)
        for i, (off, data) in enumerate(ops):
            if i % step == 0 or len(ops) - i < 4:
                yield i, bytes(img)
            img.extend(bytes(max(0, off - len(img))))
            img[off : off + len(data)] = data
        yield len(ops), bytes(img)
        return
    total = sum(len(d) for _o, d in ops)
    while grid > 1 and total // grid > cap:
        grid *= 2
    for i, (off, data) in enumerate(ops):
        if len(ops) > 50 and grid > 1 and i % 16:
            pts = {0, 1, len(data) // 2, len(data) - 1}
        else:
            pts = set(range(0, len(data), grid)) | set(range(0, min(len(data), 40), 1 if grid == 1 else 3))
            pts |= {max(0, len(data) - k) for k in range(1, 6)}
        for k in sorted(pts):
            torn = bytearray(img)
            if off > len(torn):
                torn.extend(bytes(off - len(torn)))
            torn[off : off + k] = data[:k]
            yield i, bytes(torn)
        if off > len(img):
            img.extend(bytes(off - len(img)))
        img[off : off + len(data)] = data
    yield len(ops), bytes(img)


def read_image(img, mo, what):
    try:
        r = BlfReader(Source(img))
        got = drain(r, len(mo))
    except Violation as e:
        raise Violation(f"{what}: {e}") from None
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: {type(e).__name__}: {e}") from e
    return got


def required(sizes, buf):
    """Per write call: number of objects that were followed by a buffer's worth of objects."""
    must = []
    j = tail = 0
    for k in range(len(sizes)):
        tail += sizes[k]
        # objects i with sum(sizes[i+1..k]) >= buf
        while j <= k and tail - sizes[j] >= buf:
            tail -= sizes[j]
            j += 1
        must.append(j)
    return must


def on_disk(case, rec, mo, lo, sizes):
    """A log given by path (or as a file opened by the caller): its content on disk after write calls."""
    need = required(sizes, case["buf"])
    path = os.path.join(scratch(), "crash.blf")
    step = max(1, len(mo) // case["every"])
    seen = set()
    rec.count = 0
    f = None
    try:
        with lib("opening"):
            f = open(path, "wb") if case["stage"] == "file" else None
            w = BlfWriter(f or path, compression_level=case["lv"], buffer_size=case["buf"])
        for k, o in enumerate(lo):
            with lib(f"write number {k}"):
                w.write(o)
            if k % step == 0 or k == len(lo) - 1 or need[k] != (need[k - 1] if k else 0) and k % (step // 4 + 1) == 0:
                with open(path, "rb") as g:
                    img = g.read()
                rec.count += 1
                what = f"process dies after write number {k} ({len(img)} bytes on disk)"
                if len(img) < 144:
                    expect(need[k] == 0, lambda: f"{what}: no complete file header, {need[k]} objects were followed by"
                           f" a buffer's worth ({case['buf']} bytes) of objects")
                    continue
                got = read_image(img, mo, what)
                expect(len(got) >= need[k], lambda: f"{what}: only {len(got)} objects readable, {need[k]} were followed"
                       f" by a buffer's worth ({case['buf']} bytes) of objects")
                lo_, hi = (0, len(mo)) if len(mo) < 500 else (max(0, len(got) - 40), len(got))
                same_objects(got[lo_:], mo[lo_:hi], what, prefix=True)
                if 0 < len(got) < len(mo):
                    rec.hit("partial log")
                seen.add(len(got))
        with lib("close"):
            w.close()
    finally:
        if f is not None:
            f.close()
        with contextlib.suppress(FileNotFoundError):
            os.unlink(path)
    rec.label(f"real {case['stage']}")
    if len(seen) > 3:
        rec.label("many distinct prefixes")


def check(name, case, rec):
    mo = session.expand(case["objs"])
    with lib("preparing objects"):
        lo = session.lib_objects(mo, case.get("via", 0))
    memo = {}
    sizes = [memo.setdefault(id(o), m.osize(o)) for o in mo]
    if case.get("stage") in ("path", "file"):
        on_disk(case, rec, mo, lo, sizes)
        return
    buffered = case.get("stage") == "buffered"
    after = []  # number of file operations after each write call
    with lib("writing"):
        sink = RawSink() if buffered else OpSink()
        target = io.BufferedRandom(sink) if buffered else sink
        w = BlfWriter(target, compression_level=case["lv"], buffer_size=case["buf"])
        for o in lo:
            w.write(o)
            after.append(len(sink.ops))
        ops_before_close = len(sink.ops)
        w.close()
    ops = list(sink.ops)
    # objects that must be in the file once the k-th write call has returned
    need_at = required(sizes, case["buf"])
    rec.count = 0
    same_cache = set()
    for i, img in images(ops, case["grid"], every=case.get("every", 1)):
        if len(img) < 144:
            continue
        rec.count += 1
        what = f"crash in file operation {i} of {len(ops)} ({len(img)} bytes in the file)"
        got = read_image(img, mo, what)
        same_objects(got if len(mo) < 500 else got[-40:], mo if len(mo) < 500 else mo[max(0, len(got) - 40) :
                                                                                      len(got)],
                     what, prefix=True)
        k = bisect.bisect_right(after, i)
        done = need_at[k - 1] if k else 0
        expect(len(got) >= done, lambda: f"{what}: only {len(got)} objects readable, {done} were followed"
               f" by a buffer's worth ({case['buf']} bytes) of objects")
        if 0 < len(got) < len(mo):
            rec.hit("partial log")
        if i >= ops_before_close:
            rec.label("crash during close")
        same_cache.add(len(got))
    rec.label("buffered file" if buffered else "direct")
    if len(same_cache) > 3:
        rec.label("many distinct prefixes")
    if case["lv"]:
        rec.label("compressed")

