"""C14: every way of consuming a log yields the same single sequence."""
import contextlib
import gzip
import io
import itertools
import logging
import os
import pathlib
import random
import tempfile
import zipfile

from hypothesis import strategies as st

from .. import gen, model as m, session
from ..core import Search, Sweep, Violation, expect, fail, lib, mix
from ..vb import NAMES, BlfReader, Source, elsewhere, open_fds, same_objects, scratch
from . import c02
from .c13 import EXCS, KINDS_OF_NAME, NOT_TARGETS, Like, body_error

META = {
    "level": "exploration",
    "technique": "model-based testing: generated consumption histories against a list cursor, over all source kinds",
    "rule": "One case = a well-formed file, a kind of source and a history of consumption steps (fetch one,"
            " iterate partly and break, new iterator, advance an old iterator, drain, ask again after the"
            " end, look at the statistics).  Each delivery is compared with a cursor over the expected list;"
            " afterwards the source bytes must be unchanged and leaving the with-block must have closed it."
            "  Names with special characters are taken literally; all logging may be switched on."
            "  Non-trivial: at least two different kinds of step deliver objects.",
    "assumptions": [],
}

SERIAL = itertools.count()
SOURCES = ["str", "bytes", "path", "like_str", "like_bytes", "mem", "open_rb", "raw", "r+b", "buffered1",
           "buffered64", "gzip", "zip", "spooled", "bare", "sub_str", "sub_bytes", "sub_path", "bytesio", "random"]

step = st.one_of(
    st.just(["r"]), st.just(["r"]),
    st.integers(0, 4).map(lambda k: ["for", k]),
    st.just(["new"]),
    st.integers(0, 3).map(lambda i: ["next", i]),
    st.integers(0, 3).map(lambda i: ["next", i]),
    st.just(["stat"]),
    st.integers(1, 3).map(lambda k: ["many", k]),
    st.just(["drop"]),
)


@st.composite
def cases(draw):
    spec = draw(gen.file_spec(6))
    ops = draw(st.lists(step, max_size=20))
    if draw(st.booleans()):
        ops += [["all"]]
        ops += draw(st.lists(step, max_size=6))
    return {"spec": spec, "src": draw(st.sampled_from(SOURCES)), "ops": ops,
            "with": draw(st.sampled_from([0, 1, 1, 2])), "exc": draw(st.sampled_from(EXCS)), "log": draw(st.integers(0, 4)) == 0}


def sweep(tier):
    K = c02.CAN
    spec = {"level": 6, "segs": [c02.seg([K, c02.TXT, c02.UNK, K, K], [20, 50, 50, 130]),
                                 {"k": "bare", "objs": [c02.UNK], "fill": [b"LOB"]}], "tail": b"\0"}
    scripts = [
        [["r"]] * 9, [["all"], ["r"], ["all"], ["r"]], [["for", 1]] * 8, [["for", 2], ["r"], ["for", 9], ["r"]],
        [["new"], ["next", 0], ["new"], ["next", 1], ["next", 0], ["r"], ["next", 1], ["next", 0], ["r"]],
        [["r"], ["drop"], ["new"], ["next", 0], ["drop"], ["all"], ["new"], ["next", 0], ["next", 0]],
        [["for", 0], ["for", 0], ["r"], ["for", 0], ["all"]], [["stat"], ["r"], ["stat"], ["all"], ["stat"]],
        [], [["many", 3], ["for", 1], ["many", 3], ["r"]],
    ]
    for src in SOURCES:
        for sc in scripts:
            for w in (0, 1, 2):
                yield {"spec": spec, "src": src, "ops": sc, "with": w, "log": w == 1 and len(sc) % 2}
        for lv in (0, 1):
            yield {"spec": {"level": lv, "segs": [], "tail": b""}, "src": src, "ops": [["r"], ["all"], ["r"]],
                   "with": 1}
            big = {"level": lv, "segs": [c02.seg([K] * 3000, list(range(1000, 140000, 9999)))], "tail": b""}
            yield {"spec": big, "src": src, "ops": [["for", 1500], ["r"], ["all"], ["r"]], "with": 1}
            yield {"spec": big, "src": src, "ops": [["many", 3003], ["all"], ["many", 500], ["for", 2]], "with": lv + 1,
                   "exc": EXCS[(lv + len(src)) % len(EXCS)]}
            yield {"spec": big, "src": src, "ops": [x for i in range(60) for x in (["new"], ["next", i], ["for", i % 3])], "with": 2 * lv}
            yield {"spec": spec, "src": src, "ops": [x for i in range(40) for x in (["new"], ["next", i], ["for", i % 2])] + [["many", 40]],
                   "with": 2 * lv, "exc": EXCS[(7 + lv + len(src)) % len(EXCS)]}
        for n in (4096, 8192, 65504, 65536, 70000, 131072, 300001):  # at and beyond common block sizes
            huge = session.opaque_of(n)
            segs = [{"k": "bare", "objs": [huge, K], "fill": []}, c02.seg([huge, K], [])]
            yield {"spec": {"level": n % 2, "segs": segs, "tail": b""}, "src": src,
                   "ops": [["r"], ["for", 2], ["r"], ["r"]], "with": mix(n, src) % 3}


def counts(tier):
    """Few objects, with every kind of count stated in the header, consumed in every simple way."""
    scripts = [[["many", 12]], [["all"], ["many", 2]], [["for", 1], ["many", 12]], [["r"], ["all"], ["all"], ["r"]],
               [["new"], ["next", 0], ["r"], ["for", 2], ["next", 0], ["all"]], [["stat"], ["r"], ["stat"]]]
    for n in range(0, 10):
        for cnt in sorted({0, 1, n, n + 1, max(n - 1, 0), 2 * n, 255, 1 << 16, (1 << 32) - 1}):
            for i, sc in enumerate(scripts):
                segs = [c02.seg([c02.CAN] * n, [60 * j for j in range(1, 1 + (n + i) % 4)])]
                if (n + i) % 3 == 0:
                    segs = [{"k": "bare", "objs": [c02.CAN] * n, "fill": []}]
                yield {"spec": {"level": mix(n, cnt, i) % 10, "segs": segs, "hdr": {"count": cnt, "fsize": 144 + 60 * n, "usize": 144 + 48 * n}, "tail": b""},
                       "src": SOURCES[mix(n, cnt, i, 1) % len(SOURCES)], "ops": sc, "with": mix(n, cnt, i, 2) % 3,
                       "exc": EXCS[mix(n, cnt, i, 3) % len(EXCS)]}


def rejects(tier):
    for k in NOT_TARGETS:
        yield {"reject": k}


def names(tier):
    for i, n in enumerate(NAMES):
        for k in KINDS_OF_NAME:
            for how in ("rel", "abs", "missing"):
                yield {"name": n, "kind": k, "how": how, "end": i % 2}


def stir_sweep(tier):
    """Files of any shape, from any kind of source, consumed in any way."""
    rnd = random.Random(14)
    for i in range(1500 if tier == "quick" else 50000):
        ops = []
        for _ in range(session.logint(rnd, 6) - 1):
            k = rnd.choice(["r", "r", "for", "new", "next", "next", "stat", "many", "drop", "all"] if rnd.random() < 0.3 else
                           ["r", "r", "for", "new", "next", "next", "stat", "many", "drop"])
            n = {"for": 7, "many": 9, "next": 3}.get(k)
            ops.append([k] if n is None else [k, session.logint(rnd, n) - (rnd.random() < 0.3)] if k != "next" else [k, rnd.randrange(8)])
        if rnd.random() < 0.5:
            ops += [["all"], *(rnd.choice([["r"], ["for", 2], ["all"], ["new"], ["next", 0], ["stat"]]) for _ in range(rnd.randrange(5)))]
        yield {"spec": session.stir_file(i + (1 << 25), 11, 7), "src": rnd.choice(SOURCES), "ops": ops, "with": rnd.choice([0, 1, 1, 2]),
               "exc": rnd.choice(EXCS), "log": rnd.random() < 0.1}


def sweeps():
    return [Sweep("scripts", sweep), Sweep("counts", counts), Sweep("rejects", rejects), Sweep("names", names), Sweep("stir", stir_sweep)]


def searches():
    return [Search("histories", cases(), 3000, 250000)]


class Bare:
    """The least a binary file offers: read, seek, tell, close."""

    def __init__(self, data):
        self._f = io.BytesIO(data)
        self.closed = False

    def read(self, n=-1):
        return self._f.read(n)

    def seek(self, off, whence=0):
        return self._f.seek(off, whence)

    def tell(self):
        return self._f.tell()

    def close(self):
        self.closed = True


def open_source(kind, path, data):
    """-> the argument for the reader; *path* then holds what must stay unmodified, if anything."""
    if kind == "mem":
        return Source(data)
    if kind == "bytesio":
        return io.BytesIO(data)
    if kind == "random":
        return io.BufferedRandom(io.BytesIO(data), 100)
    if kind == "buffered1":
        return io.BufferedReader(io.BytesIO(data), 1)
    if kind == "buffered64":
        return io.BufferedReader(io.BytesIO(data), 64)
    if kind == "bare":
        return Bare(data)
    if kind == "spooled":
        f = tempfile.SpooledTemporaryFile(max_size=300, dir=scratch())
        f.write(data)
        f.seek(0)
        return f
    if kind == "gzip":
        pathlib.Path(path).write_bytes(gzip.compress(data, 1))
        return gzip.open(path, "rb")
    if kind == "zip":
        with zipfile.ZipFile(path, "w") as z:
            z.writestr("log.blf", data)
        with zipfile.ZipFile(path) as z:
            return z.open("log.blf")
    pathlib.Path(path).write_bytes(data)
    if kind.startswith("sub_"):
        return KINDS_OF_NAME[kind](path)
    return {"str": lambda: path, "bytes": lambda: os.fsencode(path), "path": lambda: pathlib.Path(path),
            "like_str": lambda: Like(path), "like_bytes": lambda: Like(os.fsencode(path)),
            "open_rb": lambda: open(path, "rb"), "raw": lambda: open(path, "rb", buffering=0),
            "r+b": lambda: open(path, "r+b")}[kind]()


def check_name(case, rec):
    n = case["name"]
    data, objs, _ = m.build_file({"level": 1, "segs": [c02.seg([c02.CAN, c02.TXT, c02.CAN], [50])], "tail": b""})
    decoy = m.build_file({"level": 0, "segs": [], "tail": b""})[0]
    with elsewhere() as place:
        given = os.path.join(os.getcwd(), n) if case["how"] == "abs" else n
        plain = os.path.normpath(n)
        pathlib.Path("sub/bystander.blf").write_bytes(decoy)
        if case["how"] != "missing":
            pathlib.Path(plain).write_bytes(data)
        before = place.files()
        arg = KINDS_OF_NAME[case["kind"]](given)
        if case["how"] == "missing":
            try:
                BlfReader(arg)
            except OSError:
                pass
            else:
                fail(f"a log that does not exist was opened ({case['kind']} {given!a})")
            rec.label("missing file")
        else:
            with lib(f"reading from {case['kind']} {given!a}"):
                if case["end"]:
                    with BlfReader(arg) as r:
                        got = list(r)
                else:
                    r = BlfReader(arg)
                    got = list(r)
            same_objects(got, objs, f"log named {given!a}")
            rec.hit()
        expect(place.files() == before, f"reading {given!a} changed files")


def check(name, case, rec):
    if "name" in case:
        return check_name(case, rec)
    if case.get("log"):  # with every log message of the library switched on
        with all_messages():
            check_history(case, rec)
        rec.label("messages switched on")
        return
    check_history(case, rec)


@contextlib.contextmanager
def all_messages():
    top, keep = logging.getLogger(), logging.NullHandler()
    keep.createLock()
    keep.handle = logging.Handler.handle.__get__(keep)
    keep.emit = lambda record: record.getMessage()
    old = [(g, g.level, g.propagate) for g in (top, logging.getLogger("vblf"))]
    off = logging.root.manager.disable
    top.addHandler(keep)
    try:
        logging.disable(logging.NOTSET)
        for g, _l, _p in old:
            g.setLevel(1)
            g.propagate = True
        yield
    finally:
        top.removeHandler(keep)
        logging.disable(off)
        for g, level, propagate in old:
            g.setLevel(level)
            g.propagate = propagate


def check_history(case, rec):
    if "reject" in case:
        rec.hit("rejected source")
        try:
            BlfReader(NOT_TARGETS[case["reject"]]())
        except TypeError:
            return
        except Exception as e:  # noqa: BLE001
            raise Violation(f"source {case['reject']}: {type(e).__name__} instead of TypeError: {e}") from e
        fail(f"source {case['reject']} accepted")
    data, objs, _ = m.build_file(case["spec"])
    head = m.parse_file_header(data)
    path = os.path.realpath(os.path.join(scratch(), f"s{next(SERIAL)}.blf"))
    try:
        arg = open_source(case["src"], path, data)
        isfile = hasattr(arg, "read")
        stored = pathlib.Path(path).read_bytes() if os.path.exists(path) else None
        got = []
        kinds = set()
        with lib(f"reading from {case['src']}"):
            r = BlfReader(arg)
            if case["with"] == 1:
                with r as rr:
                    expect(rr is r, "with-block does not yield the reader")
                    consume(r, case["ops"], objs, got, kinds, head)
            elif case["with"] == 2:
                exc = body_error(case.get("exc", "RuntimeError"))
                try:
                    with r:
                        consume(r, case["ops"], objs, got, kinds, head)
                        raise exc
                except BaseException as e:  # noqa: BLE001
                    if e is not exc and isinstance(e, Violation):
                        raise
                    expect(e is exc, "exception of the body did not arrive")
                else:
                    fail("exception of the body was swallowed")
            else:
                consume(r, case["ops"], objs, got, kinds, head)
        if case["with"] and case["ops"] and "ended" in kinds:
            with lib("asking again behind the with-block"):
                expect(r.read_object() is None and list(r) == [], "an object behind the end")
        kinds.discard("ended")
        same_objects(got, objs, f"consumed from {case['src']}", prefix=True)
        if case["with"]:
            if isfile:
                expect(arg.closed, f"{case['src']}: source is left open")
            else:
                expect(open_fds(path) == 0, f"{case['src']}: file descriptor is left open")
        elif isfile:
            if case["src"] == "mem" and not arg.closed:
                expect(arg.getvalue() == data, "mem: source was modified")
            arg.close()
        r = None
        if stored is not None:
            expect(pathlib.Path(path).read_bytes() == stored, f"{case['src']}: source was modified")
    finally:
        if os.path.exists(path):
            os.unlink(path)
    rec.label("source " + case["src"])
    if len(kinds) > 1:
        rec.hit()
    if len(got) == len(objs) and objs:
        rec.label("drained")
    rec.label(*("step " + k for k in kinds))


def consume(r, ops, objs, got, kinds, head):
    its = []
    total = len(objs)

    def took(obj, how):
        if obj is None:
            expect(len(got) == total, f"{how}: end reported after {len(got)} of {total} objects")
            kinds.add("ended")
            return
        if len(got) >= total:
            fail(f"{how}: an object after the end")
        got.append(obj)
        kinds.add(how)
        m.check_object(obj, objs[len(got) - 1])

    for op in ops:
        if op[0] == "r":
            took(r.read_object(), "read_object")
        elif op[0] == "many":
            for _ in range(op[1]):
                took(r.read_object(), "read_object")
        elif op[0] == "for":
            n = 0
            if op[1] == 0:
                iter(r)
            else:
                for obj in r:
                    took(obj, "for")
                    n += 1
                    if n == op[1]:
                        break
                else:
                    expect(len(got) == total, f"iteration ended after {len(got)} of {total} objects")
        elif op[0] == "new":
            its.append(iter(r))
        elif op[0] == "next" and its:
            took(next(its[op[1] % len(its)], None), "old iterator")
        elif op[0] == "drop":
            its.clear()
        elif op[0] == "all":
            for obj in list(r):
                took(obj, "drain")
            expect(len(got) == total, f"drained after {len(got)} of {total} objects")
        elif op[0] == "stat":
            s = r.file_statistics
            vals = (s.file_size, s.uncompressed_file_size, s.object_count, s.application_build,
                    int(s.compression_level), s.api_number, s.restore_points_offset, bytes(s.reserved))
            want = (head["fsize"], head["usize"], head["count"], head["build"], head["level"], head["api"],
                    head["restore"], head["reserved"])
            expect(vals == want, f"file statistics {vals}, header says {want}")
