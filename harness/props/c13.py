"""C13: closing, exit paths and kinds of target."""
import asyncio
import builtins
import io
import itertools
import os
import pathlib
import random
import struct
import tempfile
import zlib

from hypothesis import strategies as st

from .. import gen, model as m, session
from ..core import Search, Sweep, Violation, expect, fail, lib, mix
from ..vb import NAMES, BlfWriter, Sink, elsewhere, open_fds, read_all, same_objects, scratch

SERIAL = itertools.count()
META = {
    "level": "exploration",
    "technique": "property-based testing: exit paths x target kinds against an in-memory control",
    "rule": "One case = a write session, a kind of target (text, bytes and path-object paths, path-likes,"
            " in-memory, buffered, read-write, unbuffered and temporary files) and a way to end it (close,"
            " repeated close, with-block left normally, by an exception or after an explicit close)."
            "  The file must be complete, equal to the in-memory control (times masked) and closed; more"
            " closes change nothing; the body's exception must arrive unchanged.  Names with special"
            " characters must be taken literally.  Also unsupported targets and buffer sizes.  Non-trivial: objects are pending when the session ends, or a rejection.",
    "assumptions": ["unsupported types are those without path or file interface"],
}

TARGETS = ["str", "bytes", "path", "like_str", "like_bytes", "mem", "open_wb", "open_w+b", "raw", "temp",
           "named", "spooled", "nonempty", "over_bytes", "over_path", "over_like_str", "over_like_bytes",
           "sub_str", "sub_bytes", "sub_path", "rolled", "bare", "tiny_buffer"]
ENDS = ["close", "close3", "with", "with_close", "with_exc", "with_exc_close", "exit_direct", "nested"]
EXCS = ["ValueError", "KeyboardInterrupt", "SystemExit", "GeneratorExit", "OSError", "StopIteration",
        "Custom", "Exception", "BaseException", "AssertionError", "RuntimeError", "EOFError", "UnicodeDecodeError",
        "BrokenPipeError", "ZeroDivisionError", "TypeError", "KeyError", "MemoryError", "RecursionError",
        "StopAsyncIteration", "no args", "caused", "group", "CancelledError", "struct.error", "zlib.error", "BlockingIOError", "TimeoutError", "FileNotFoundError", "NotImplementedError", "Warning", "AttributeError",
        "int cause", "falsy"]


class CustomError(BaseException):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = None


def body_error(kind):
    if kind == "Custom":
        return CustomError("body")
    if kind == "UnicodeDecodeError":
        return UnicodeDecodeError("utf-8", b"\xff", 0, 1, "body")
    if kind == "no args":
        return ValueError()
    if kind == "caused":
        e = ValueError("body")
        e.__cause__ = OSError(28, "reason")
        return e
    if kind == "int cause":
        e = KeyError(5)
        e.__context__ = Exception("context")
        return e
    if kind == "group":
        return BaseExceptionGroup("body", [ValueError("a"), KeyboardInterrupt()])
    if kind == "CancelledError":
        return asyncio.CancelledError()
    if kind == "falsy":
        return Falsy("body")
    if kind == "struct.error":
        return struct.error("body")
    if kind == "zlib.error":
        return zlib.error("body")
    return getattr(builtins, kind)("body")


class Like:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


class Name(str):
    __slots__ = ()


class BytesName(bytes):
    __slots__ = ()


class PathName(type(pathlib.Path())):
    pass


class Rolled(tempfile.SpooledTemporaryFile):
    """Keeps its content; starts in memory, and goes on in a file."""

    content = None

    def close(self):
        if not self.closed:
            self.seek(0)
            self.content = self.read()
        super().close()


class Bare:
    """The least a target offers: write, seek, tell, close, closed."""

    def __init__(self):
        self._f, self.closed, self.content = io.BytesIO(), False, None

    def write(self, data):
        return self._f.write(data)

    def seek(self, off, whence=0):
        return self._f.seek(off, whence)

    def tell(self):
        return self._f.tell()

    def close(self):
        self.closed, self.content = True, self._f.getvalue()


NOT_TARGETS = {
    "none": lambda: None, "int": lambda: 5, "zero": lambda: 0, "float": lambda: 1.5, "list": list,
    "dict": dict, "object": object, "tuple": lambda: ("a.blf",), "true": lambda: True, "set": set,
    "class": lambda: Like, "bytearray": lambda: bytearray(b"x"), "memoryview": lambda: memoryview(b"x"),
    "lambda": lambda: (lambda: 0), "range": lambda: range(3), "complex": lambda: 1j,
}


@st.composite
def cases(draw):
    c = draw(session.sessions(8, tgt=False))
    c["target"] = draw(st.sampled_from(TARGETS))
    c["end"] = draw(st.sampled_from(ENDS))
    c["exc"] = draw(st.sampled_from(EXCS))
    c["after"] = draw(st.integers(0, 8))
    c["suffix"] = draw(st.sampled_from([".blf", "", ".BLF", ".tmp", ".blf.gz", " \u00e9.blf", ".asc", ".zip", "-.xz"]))
    return c


def sweep(tier):
    objs = [session.opaque_of(40), session.opaque_of(17), session.opaque_of(100), session.opaque_of(33)]
    i = 0
    for t in TARGETS:
        for e in ENDS:
            for n in (0, 1, 4):
                for buf in (1 << 17, 50, 64):
                    i += 1
                    yield {"objs": objs[:n], "lv": mix(i) % 10, "buf": buf, "target": t, "end": e,
                           "exc": EXCS[i % len(EXCS)], "after": n if mix(i, 1) % 2 else n // 2}
    for t in ("mem", "str"):
        for x in EXCS:
            for after in (0, 2, 4):
                yield {"objs": objs, "lv": 6, "buf": 64, "target": t, "end": "with_exc", "exc": x,
                       "after": after}
    for t in ("path", "mem", "raw", "open_wb"):
        for e in ENDS:
            yield {"objs": {"rep": objs, "n": 4000}, "lv": 1, "buf": 1 << 17, "target": t, "end": e,
                   "exc": "OSError", "after": 3000}


def rejects(tier):
    for k in NOT_TARGETS:
        yield {"reject": "target", "what": k}
    for b in (0, -1, -7, -8, -131072, -(1 << 40)):
        for t in ("mem", "str"):
            yield {"reject": "buffer", "buf": b, "target": t, "n": 0}
            yield {"reject": "buffer", "buf": b, "target": t, "n": 2}


KINDS_OF_NAME = {"str": lambda n: n, "bytes": os.fsencode, "path": pathlib.Path, "like_str": lambda n: Like(n),
                 "like_bytes": lambda n: Like(os.fsencode(n)), "sub_str": Name, "sub_bytes": lambda n: BytesName(os.fsencode(n)),
                 "sub_path": PathName}


def names(tier):
    for i, n in enumerate(NAMES):
        for k in KINDS_OF_NAME:
            for what in ("rel", "abs", "over"):
                yield {"name": n, "kind": k, "how": what, "end": ["close", "with"][i % 2]}
    for n in NAMES:
        for k in KINDS_OF_NAME:
            yield {"name": n, "kind": k, "how": "missing", "end": "close"}


def stir_sweep(tier):
    rnd = random.Random(13)
    for i in range(900 if tier == "quick" else 30000):
        yield {**session.stir(i + (1 << 22), 14, 7), "target": rnd.choice(TARGETS), "end": rnd.choice(ENDS), "exc": rnd.choice(EXCS),
               "after": rnd.randrange(9), "suffix": rnd.choice([".blf", "", ".BLF", ".tmp", ".blf.gz", ".asc", ".zip"])}


def sweeps():
    return [Sweep("exits", sweep), Sweep("rejects", rejects), Sweep("names", names), Sweep("stir", stir_sweep)]


def searches():
    return [Search("sessions", cases(), 2000, 150000)]


def open_target(kind, path):
    """-> (argument for the writer, file-like or None, function giving the content)."""
    def from_path():
        return pathlib.Path(path).read_bytes()

    if kind == "nonempty" or kind.startswith("over_"):  # the path names an existing, longer file
        pathlib.Path(path).write_bytes(b"LOBJ old content " * 20000)
        kind = kind.removeprefix("over_")
    if kind in ("str", "nonempty"):
        return path, None, from_path
    if kind == "bytes":
        return os.fsencode(path), None, from_path
    if kind == "path":
        return pathlib.Path(path), None, from_path
    if kind == "like_str":
        return Like(path), None, from_path
    if kind == "like_bytes":
        return Like(os.fsencode(path)), None, from_path
    if kind in ("sub_str", "sub_bytes", "sub_path"):
        return KINDS_OF_NAME[kind](path), None, from_path
    if kind in ("mem", "bare", "rolled"):
        s = Sink() if kind == "mem" else Bare() if kind == "bare" else Rolled(max_size=300, dir=scratch())
        return s, s, lambda: s.content
    if kind == "tiny_buffer":
        f = open(path, "wb", buffering=7)
        return f, f, from_path
    if kind == "open_wb":
        f = open(path, "wb")
        return f, f, from_path
    if kind == "open_w+b":
        f = open(path, "w+b")
        return f, f, from_path
    if kind == "raw":
        f = open(path, "wb", buffering=0)
        return f, f, from_path
    if kind == "named":
        f = tempfile.NamedTemporaryFile(dir=scratch(), delete=False)
        os.link(f.name, path)
        os.unlink(f.name)
        return f, f, from_path
    if kind == "temp":
        f = tempfile.TemporaryFile(dir=scratch())
        keep = os.dup(f.fileno())

        def content():
            try:
                return os.pread(keep, os.fstat(keep).st_size, 0)
            finally:
                os.close(keep)

        return f, f, content
    if kind == "spooled":
        f = tempfile.SpooledTemporaryFile(max_size=1 << 26, dir=scratch())
        inner = Sink()
        f._file = inner
        return f, f, lambda: inner.content
    raise AssertionError(kind)


def mask(data):
    return data[:40] + bytes(32) + data[72:]


def check_reject(case, rec):
    rec.hit("rejected " + case["reject"])
    if case["reject"] == "target":
        try:
            BlfWriter(NOT_TARGETS[case["what"]]())
        except TypeError:
            return
        except Exception as e:  # noqa: BLE001
            raise Violation(f"target {case['what']}: {type(e).__name__} instead of TypeError: {e}") from e
        fail(f"target {case['what']} accepted")
    path = os.path.join(scratch(), f"rej{next(SERIAL)}.blf")
    pathlib.Path(path).write_bytes(b"old content")
    sink = Sink()
    try:
        w = BlfWriter(sink if case["target"] == "mem" else path, buffer_size=case["buf"])
    except ValueError:
        expect(pathlib.Path(path).read_bytes() == b"old content", "the rejected writer overwrote an existing file")
        expect(not sink.closed and sink.getvalue() == b"", "the rejected writer wrote to or closed its target")
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"buffer size {case['buf']}: {type(e).__name__} instead of ValueError") from e
    finally:
        if os.path.exists(path):
            os.unlink(path)
    fail(f"buffer size {case['buf']} accepted ({type(w).__name__})")


def check_name(case, rec):
    n, how = case["name"], case["how"]
    objs = [session.opaque_of(40), session.opaque_of(17)]
    lo = session.lib_objects(objs, 0)
    with elsewhere() as place:
        given = os.path.join(os.getcwd(), n) if how == "abs" else n
        if how == "missing":
            given = os.path.join("absent", n)
        bystander = "sub/bystander.blf"
        pathlib.Path(bystander).write_bytes(b"other content")
        plain = os.path.normpath(n)
        if how == "over":
            pathlib.Path(plain).write_bytes(b"LOBJ old content " * 5000)
        arg = KINDS_OF_NAME[case["kind"]](given)
        if how == "missing":
            try:
                BlfWriter(arg)
            except OSError:
                pass
            else:
                fail(f"a log in a missing directory was accepted ({case['kind']} {given!a})")
            expect(list(place.files()) == [bystander], f"refusing {given!a} left files behind")
            rec.label("missing directory")
            return
        with lib(f"writing to {case['kind']} {given!a}"):
            w = BlfWriter(arg, buffer_size=60)
            if case["end"] == "with":
                with w:
                    for o in lo:
                        w.write(o)
            else:
                for o in lo:
                    w.write(o)
                w.close()
        files = place.files()
        expect(set(files) == {plain, bystander} and files[bystander] == b"other content",
               f"writing to {case['kind']} {given!a} left {sorted(files)!a}")
        data = files[plain]
        same_objects(read_all(data, 2), objs, f"log named {given!a}")
    rec.label("named " + how)
    rec.hit()


def check(name, case, rec):
    if "name" in case:
        return check_name(case, rec)
    if "reject" in case:
        return check_reject(case, rec)
    mo = session.expand(case["objs"])
    with lib("preparing objects"):
        lo = session.lib_objects(mo, case.get("via", 0))
    end, exc = case["end"], None
    done = min(case["after"], len(lo)) if end in ("with_exc", "with_exc_close") else len(lo)
    path = os.path.realpath(os.path.join(scratch(), f"t{next(SERIAL)}{case.get('suffix', '.blf')}"))
    arg, flike, content = open_target(case["target"], path)
    raised = None
    if end in ("with_exc", "with_exc_close"):
        exc = body_error(case["exc"])
        cause, context = exc.__cause__, exc.__context__
    try:
        with lib(f"session on {case['target']} ended by {end}"):
            w = BlfWriter(arg, compression_level=session.level_of(case), buffer_size=case["buf"])
            if end in ("close", "close3", "exit_direct"):
                for o in lo:
                    w.write(o)
                if end == "exit_direct":
                    expect(not w.__exit__(None, None, None), "__exit__ asks to swallow")
                else:
                    for _ in range(3 if end == "close3" else 1):
                        w.close()
            elif end == "nested":
                with w as a, a as b:
                    expect(a is w and b is w, "with-block does not yield the writer")
                    for o in lo:
                        b.write(o)
            else:
                try:
                    with w as a:
                        expect(a is w, "with-block does not yield the writer")
                        for i, o in enumerate(lo):
                            if i == done:
                                break
                            a.write(o)
                        if end in ("with_close", "with_exc_close"):
                            a.close()
                        if exc is not None:
                            raise exc
                except BaseException as e:  # noqa: BLE001
                    raised = e
                    if e is not exc:
                        raise
        expect(raised is exc, f"exception of the body did not arrive (got {raised!r})")
        if exc is not None:
            expect(exc.__cause__ is cause and exc.__context__ is context, f"the cause or context of the body's {exc!r} was changed")
        if flike is not None:
            expect(flike.closed, f"{case['target']} target is left open")
        else:
            expect(open_fds(path) == 0, "file descriptor is left open")
        with lib(f"the file named as {case['target']}"):
            data = content()
        with lib("closing again"):
            w.close()
            w.close()
        if case["target"] not in ("mem", "temp", "spooled", "bare", "rolled"):
            expect(pathlib.Path(path).read_bytes() == data, "closing again changed the file")
        elif case["target"] != "temp":
            expect(content() == data, "closing again changed the file")
    finally:
        if os.path.exists(path):
            os.unlink(path)
    ctl, _lo, _mo = session.run({**case, "tgt": "mem"}, objs=mo[:done])
    same_objects(read_all(data, done), mo[:done], f"reading the log ended by {end}")
    expect(mask(data) == mask(ctl), lambda: f"{case['target']} ended by {end}: file of {len(data)} bytes"
           f" differs from the in-memory control of {len(ctl)} bytes")
    memo = {}
    raws = [memo.setdefault(id(o), m.encode(o)) for o in mo[:done]]
    w2 = m.Written(data)
    m.match_stream(w2.stream(), raws, aligned=False)
    expect((w2.header["count"], w2.header["fsize"], w2.header["usize"]) ==
           (done, len(data), 144 + sum(map(len, raws))), f"statistics are not final: {w2.header}")
    rec.label("target " + case["target"], "end " + end)
    if done:
        rec.hit()
    assert io and gen
