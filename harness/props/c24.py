"""C24: bounded memory and proportional work."""
import gc
import io
import os
import sys
import tracemalloc
import zlib

from hypothesis import strategies as st

from .. import gen, model as m, session
from ..core import Search, Sweep, expect, lib
from ..vb import BlfReader, BlfWriter, Sink, construct, decode, vblf
from . import c02, codec

UNGUIDED = True

META = {
    "level": "exploration",
    "technique": "property-based testing: metamorphic relation between a log and the same log four times as long (traced memory, file accesses, executed lines)",
    "rule": "One case = a repeated pattern of objects, a length, a buffer size and level (writing) or a packaging"
            " (reading: containers of any cut, bare objects, filler), or a set of whole sessions repeated. The"
            " same session is run with n and 4n repetitions: peak traced memory must stay the same (within a"
            " quarter plus 24 KiB, confirmed with 16n and 64n), file accesses, bytes moved and lines of library code executed must grow at"
            " most in proportion, the file must not be fetched further ahead for a longer log, and repeated"
            " whole sessions must leave nothing allocated.  Non-trivial: the longer session moves at least 4"
            " buffers (or containers) worth of data.",
    "assumptions": ["memory is what tracemalloc sees: everything allocated by Python and its built-in modules",
                    "a single container or object larger than the log itself is not bounded by anything"],
}
LIBDIR = os.path.dirname(vblf.__file__)
SLACK = 24 << 10


class Null(io.RawIOBase):
    """Target that stores nothing."""

    def __init__(self):
        super().__init__()
        self.pos = self.end = self.calls = self.moved = 0

    def writable(self):
        return True

    def seekable(self):
        return True

    def write(self, b):
        n = len(b)
        self.calls += 1
        self.moved += n
        self.pos += n
        self.end = max(self.end, self.pos)
        return n

    def seek(self, off, whence=0):
        self.calls += 1
        self.pos = off if whence == 0 else (self.pos if whence == 1 else self.end) + off
        return self.pos

    def tell(self):
        return self.pos


class Virtual(io.RawIOBase):
    """Source: a head and *n* repetitions of a body, held once."""

    def __init__(self, head, body, n):
        super().__init__()
        self.head, self.body = head, body
        self.size = len(head) + n * len(body)
        self.pos = self.calls = self.moved = self.far = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def read(self, n=-1):
        self.calls += 1
        if n is None or n < 0:
            n = self.size
        end = min(self.size, self.pos + n)
        out = []
        p = self.pos
        while p < end:
            if p < len(self.head):
                chunk = self.head[p:end]
            else:
                q = (p - len(self.head)) % len(self.body)
                chunk = self.body[q:q + end - p]
            out.append(chunk)
            p += len(chunk)
        self.moved += max(0, end - self.pos)
        self.pos = max(self.pos, end)
        self.far = max(self.far, self.pos)
        return out[0] if len(out) == 1 else b"".join(out)

    def readinto(self, b):
        data = self.read(len(b))
        b[: len(data)] = data
        return len(data)

    def readall(self):
        return self.read(-1)

    def seek(self, off, whence=0):
        self.calls += 1
        self.pos = max(0, off + (0 if whence == 0 else self.pos if whence == 1 else self.size))
        return self.pos

    def tell(self):
        return self.pos


def distinct(kinds, i):
    """Objects number *i*: no two are alike, all are of the same size.

    Flags stay as they are: Python's enum module keeps every combination of flags it has met."""
    out = []
    for k in kinds:
        if k == "OPAQUE":
            out.append({"t": "OPAQUE", "code": 1000 + i, "hs": 32, "hv": 1, "body": i.to_bytes(8, "little") + b"%016d" % i})
        elif k == "CAN_MESSAGE":
            out.append({"t": k, "h": [1, 2, 0, 0, 7 * i], "v": {"channel": i & 0xFFFF, "flags": 0, "dlc": 8, "frame_id": i, "data": i.to_bytes(8, "big")}})
        elif k == "EVENT_COMMENT":
            out.append({"t": k, "h": [1, 2, 0, 0, i], "v": {"commented_event_type": i, "reserved": i >> 1}, "text": f"text {i:012}"})
        else:
            o = codec.ramp(m.KINDS[k])
            o = {**o, "h": [*o["h"][:4], i]}
            for s in m.STRINGS.get(k, ()):
                o[s] = f"{s} {i:012}"
            out.append(o)
    return out


class Distinct(Virtual):
    """Source: a head and *n* different blocks of the same size, made when they are fetched."""

    def __init__(self, kinds, lv, n, start=0):
        self.kinds, self.lv, self.start = kinds, lv, start
        super().__init__(m.file_header(level=lv), b"", 0)
        self.width = 64 + 2 * sum(m.osize(o) for o in distinct(kinds, 0))
        self.width += -self.width % 4
        self.size = len(self.head) + n * self.width
        self.last = -1, b""

    def block(self, i):
        if i != self.last[0]:
            self.last = i, self.make(i)
        return self.last[1]

    def make(self, i):
        raw = b"".join(m.encode(o) for o in distinct(self.kinds, self.start + i))
        raw = m.container(zlib.compress(raw, self.lv), 2, len(raw)) if self.lv else m.container(raw, 0, len(raw))
        return raw.ljust(self.width, b"\0")

    def read(self, n=-1):
        self.calls += 1
        end = self.size if n is None or n < 0 else min(self.size, self.pos + n)
        out, p = [], self.pos
        while p < end:
            if p < len(self.head):
                chunk = self.head[p:end]
            else:
                i, q = divmod(p - len(self.head), self.width)
                chunk = self.block(i)[q : q + end - p]
            out.append(chunk)
            p += len(chunk)
        self.pos = max(self.pos, end)
        return b"".join(out)


def write_session(pattern, n, lv, buf, how):
    sink = Null()
    w = BlfWriter(sink, compression_level=lv, buffer_size=buf)
    if how == "fresh":  # new objects all the time
        raws = [o.pack() for o in pattern]
        classes = [type(o) for o in pattern]
        for _ in range(n):
            for c, r in zip(classes, raws):
                w.write(c.unpack(bytes(bytearray(r))))
    elif how == "rejected":  # ... and as many that are not accepted
        for _ in range(n):
            for o in pattern:
                w.write(o)
                o.header.base.object_size += 8
                try:
                    w.write(o)
                except ValueError:
                    pass
                o.header.base.object_size -= 8
    else:
        for _ in range(n):
            for o in pattern:
                w.write(o)
    w.close()
    return sink


def read_session(src, how, first):
    """-> number of objects, bytes fetched when object number *first* arrived."""
    r = BlfReader(src)
    n, far = 0, None
    if how == "for":
        for _o in r:
            n += 1
            if n == first:
                far = src.far
    else:
        while r.read_object() is not None:
            n += 1
            if n == first:
                far = src.far
    return n, far


def fill_free_lists():
    """The interpreter keeps freed tuples and other small objects for reuse: that is no growth."""
    for k in range(1, 20):
        keep = [tuple(range(k)) for _ in range(2000)]
        del keep
    keep = [float(i) for i in range(200)], [[i] for i in range(200)], [{} for i in range(200)]
    del keep


def bounded(what, run, n, p1, p4, ratio=1.25):
    """Peak memory must not follow the length; what only fills up to a fixed limit is no growth."""
    for _ in range(2):
        if p4 <= p1 * ratio + SLACK:
            return
        n *= 4
        p1, p4 = p4, traced(lambda: run(4 * n))[1]
    expect(p4 <= p1 * ratio + SLACK, f"{what}: peak memory is {p1} bytes for {n} and {p4} bytes for {4 * n} repetitions")


def traced(fn):
    gc.collect()
    fill_free_lists()
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        out = fn()
        peak = tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()
    return out, peak


def lines(fn):
    """Lines of library code executed by *fn*."""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(LIBDIR) else None

    sys.settrace(glob)
    try:
        fn()
    finally:
        sys.settrace(None)
    return n[0]


def grown(a, b, what, slack):
    expect(b <= 4 * a * 1.15 + slack, f"{what} grew from {a} to {b} when the log became 4 times as long")


def reps(total, per):
    return max(4, -(-total // max(1, per)))


@st.composite
def writes(draw):
    objs = draw(gen.objects(1, 3))
    return {"k": "write", "objs": objs, "lv": draw(gen.levels),
            "buf": draw(st.sampled_from([1, 24, 64, 100, 333, 1000, 4096, 20000, 65536, 131072])),
            "how": draw(st.sampled_from(["same", "fresh", "rejected"]))}


@st.composite
def reads(draw):
    spec = draw(gen.file_spec(4))
    return {"k": "read", "spec": spec, "how": draw(st.sampled_from(["for", "read_object"]))}


def sweep(tier):
    K, T, U = c02.CAN, c02.TXT, session.opaque_of(90)
    for lv in (0, 1, 6):
        for buf in (1, 48, 64, 1000, 131072, 1 << 18):
            for how in ("same", "fresh") if buf < 1 << 17 or lv == 1 else ("same",):
                yield {"k": "write", "objs": [K], "lv": lv, "buf": buf, "how": how}
                yield {"k": "write", "objs": [K, U, T], "lv": lv, "buf": buf, "how": how}
            if lv < 2:
                yield {"k": "write", "objs": [K, T], "lv": lv, "buf": buf, "how": "rejected"}
    yield {"k": "write", "objs": [session.opaque_of(40000)], "lv": 0, "buf": 1000, "how": "same"}
    yield {"k": "write", "objs": [session.opaque_of(40001), K], "lv": 1, "buf": 131072, "how": "fresh"}
    for n in (90, 1200, 20000):
        for buf in (500, 30000):
            yield {"k": "write", "objs": [session.opaque_of(n)], "lv": n % 4 // 2, "buf": buf, "how": "fresh"}
            yield {"k": "write", "objs": [{**T, "text": "x" * n}], "lv": buf % 7 // 3, "buf": buf, "how": "fresh"}
    segs = [
        [c02.seg([K], [])], [c02.seg([K, T, U], [20, 50, 90])], [c02.seg([K, K], [], end=b"LOB")],
        [{"k": "bare", "objs": [K, U], "fill": [b"L", b"\0\0\0"]}], [c02.seg([U], [10, 10, 10, 30])],
        [c02.seg([K] * 60, [])], [c02.seg([K] * 400, [])], [c02.seg([session.opaque_of(30000), T], [])],
        [c02.seg([session.opaque_of(90000), T], [50000])], [c02.seg([session.opaque_of(5000), T], list(range(40, 5000, 200)))],
        [c02.seg([{"t": "OPAQUE", "code": 5000, "hs": 16, "hv": 1, "body": b"q" * 100}], [])],
    ]
    for lv in (0, 6):
        for s in segs:
            for how in ("for", "read_object"):
                yield {"k": "read", "spec": {"level": lv, "segs": s, "tail": b""}, "how": how}
    for k in m.KINDS:
        from . import codec

        o = codec.ramp(m.KINDS[k])
        yield {"k": "sessions", "objs": [o], "lv": 6, "buf": 64}
        yield {"k": "read", "spec": {"level": 0, "segs": [c02.seg([o, o], [40])], "tail": b""}, "how": "for"}
        yield {"k": "write", "objs": [o], "lv": 0, "buf": 500, "how": "fresh"}
    for lv in (0, 9):
        for buf in (1, 64, 131072):
            yield {"k": "sessions", "objs": [K, T, U], "lv": lv, "buf": buf}


    for kinds in DISTINCT:
        for lv in (0, 6):
            for how in ("read", "write", "sessions"):
                yield {"k": "distinct", "kinds": kinds, "lv": lv, "how": how}


DISTINCT = [["OPAQUE"], ["OPAQUE", "EVENT_COMMENT", "CAN_MESSAGE"], [k for k in m.STRINGS if k != "EVENT_COMMENT"]]


def sweeps():
    return [Sweep("lengths", sweep)]


def searches():
    return [Search("writing", writes(), 64, 6000), Search("reading", reads(), 80, 8000)]


def check(name, case, rec):
    gc.disable()
    try:
        {"write": check_write, "read": check_read, "sessions": check_sessions, "distinct": check_distinct}[case["k"]](case, rec)
    finally:
        gc.enable()


def check_write(case, rec):
    objs = case["objs"]
    per = gen.stream_sizes(objs)
    buf, lv = case["buf"], case["lv"]
    n = max(reps(buf * 2, per), 500 // len(objs)) if per < 2000 else reps(max(buf * 2, 200000), per)
    with lib("preparing objects"):
        lo = [decode(o) for o in objs]
    if buf < per:  # bounds the number of containers
        n = max(4, min(n, 1200 * buf // per))
    with lib("writing"):
        write_session(lo, 2, lv, buf, case["how"])
        s1, p1 = traced(lambda: write_session(lo, n, lv, buf, case["how"]))
        s4, p4 = traced(lambda: write_session(lo, 4 * n, lv, buf, case["how"]))
        k = max(2, min(n, 16))
        l1 = lines(lambda: write_session(lo, k, lv, buf, case["how"]))
        l4 = lines(lambda: write_session(lo, 4 * k, lv, buf, case["how"]))
    what = f"writing {n} and {4 * n} times {per} bytes"
    bounded(what, lambda k: write_session(lo, k, lv, buf, case["how"]), n, p1, p4)
    grown(s1.calls, s4.calls, f"{what}: number of file accesses", 40)
    grown(s1.moved, s4.moved, f"{what}: bytes written", 1000)
    grown(l1, l4, f"{what}: lines executed", 300)
    rec.label("writing", f"level {lv}", "objects " + case["how"])
    if 4 * n * per > 4 * buf:
        rec.hit()


def check_read(case, rec):
    data, objs, _ = m.build_file(case["spec"])
    data += bytes(-len(data) % 4)
    head, body = data[:144], data[144:]
    if not body or not objs:
        rec.label("empty pattern")
        return
    n = max(4, min(480 // max(1, len(objs)), 200000 // len(body)))
    first = len(objs) + 1

    def run(reps_):
        src = Virtual(head, body, reps_)
        return (src, *read_session(src, case["how"], first))

    with lib("reading"):
        run(2)
        (s1, c1, f1), p1 = traced(lambda: run(n))
        (s4, c4, f4), p4 = traced(lambda: run(4 * n))
        k = max(2, min(n, 12))
        l1 = lines(lambda: run(k))
        l4 = lines(lambda: run(4 * k))
    what = f"reading {n} and {4 * n} times {len(body)} bytes"
    expect((c1, c4) == (n * len(objs), 4 * n * len(objs)), f"{what}: {c1} and {c4} objects, {len(objs)} per repetition")
    bounded(what, run, n, p1, p4)
    grown(s1.calls, s4.calls, f"{what}: number of file accesses", 40)
    grown(s1.moved, s4.moved, f"{what}: bytes read", 1000)
    grown(l1, l4, f"{what}: lines executed", 300)
    if s4.size - s1.size > 1 << 16:
        expect(f4 <= f1 + (s4.size - s1.size) // 2, f"{what}: {f1} and {f4} bytes were fetched for the first {first} objects")
        rec.label("look-ahead compared")
    rec.label("reading", f"level {case['spec']['level']}")
    if 4 * n * len(objs) > 100:
        rec.hit()


def check_distinct(case, rec):
    """As the other parts, but no two objects of the log are alike."""
    kinds, lv, how = case["kinds"], case["lv"], case["how"]

    def write(n, start=0):
        w = BlfWriter(Null(), compression_level=lv, buffer_size=1000)
        for i in range(start, start + n):
            for o in distinct(kinds, i):
                w.write(decode(o))
        w.close()

    def read(n, start=0):
        got = sum(1 for _ in BlfReader(Distinct(kinds, lv, n, start)))
        expect(got == n * len(kinds), f"reading: {got} of {n * len(kinds)} objects")

    with lib("sessions of different objects"):
        for fn in (read, write):
            fn(50)
        if how != "sessions":
            at = 1000

            def fn(n):  # never the same objects again: what is kept of earlier logs is of no use
                nonlocal at
                at += n
                {"read": read, "write": write}[how](n, at - n)

            n = 250
            p1, p4 = (traced(lambda k=k: fn(k))[1] for k in (n, 4 * n))
            bounded(f"{how}, different objects", fn, n, p1, p4, 2.2)  # a cache of fixed size that fills up is no growth
        else:
            tracemalloc.start()
            try:
                at = 1000
                for n in (300, 1200, 4800, 19200):
                    a = tracemalloc.get_traced_memory()[0]
                    for fn in (read, write):
                        fn(n, at)
                    at += n
                    gc.collect()
                    left = tracemalloc.get_traced_memory()[0] - a
                    if left < 16 * n + SLACK // 4:
                        break
            finally:
                tracemalloc.stop()
            expect(left < 16 * n + SLACK // 4, f"logs of {n} different objects left {left} bytes allocated")
    rec.hit("different objects")


def check_sessions(case, rec):
    def one():
        s = Sink()
        w = BlfWriter(s, compression_level=case["lv"], buffer_size=case["buf"])
        for o in case["objs"]:
            w.write(decode(o))
            bad = construct(o)
            bad.header.base.object_size += 8
            try:
                w.write(bad)
            except Exception:  # noqa: BLE001 - whatever is reported, nothing may stay behind
                pass
        w.close()
        data = s.content
        for cut in (0, 3, 30, len(data) - 150):
            for _ in BlfReader(io.BytesIO(data[: len(data) - max(0, cut)])):
                pass
        r = BlfReader(io.BytesIO(data))
        r.read_object()
        try:
            BlfReader(io.BytesIO(b"LOG"))
        except ValueError:
            pass
        BlfWriter(Sink(), buffer_size=100).write(decode(case["objs"][0]))  # abandoned

    with lib("whole sessions"):
        for _ in range(3):
            one()
        gc.collect()
        tracemalloc.start()
        try:
            for _ in range(6):
                one()
            gc.collect()
            for n in (30, 120, 480):  # what only fills up to a limit (caches of the interpreter) is no growth
                a = tracemalloc.get_traced_memory()[0]
                for _ in range(n):
                    one()
                gc.collect()
                left = tracemalloc.get_traced_memory()[0] - a
                if left < 130 * n:
                    break
        finally:
            tracemalloc.stop()
    expect(left < 130 * n, f"{n} whole sessions left {left} bytes allocated")
    rec.hit("whole sessions")
