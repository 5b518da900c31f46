"""The library under test plus the instruments the checks use around it."""
import contextlib
import dataclasses
import datetime
import functools
import importlib
import io
import os
import pathlib
import resource
import shutil
import sys
import tempfile
import time

from . import model as m
from .core import HarnessError, Violation, expect, fail, lib

REPO = os.environ.get("VERIF_REPO", "/repo")

# ---- clock shims, in place before the library is imported
_real_time, _real_time_ns = time.time, time.time_ns
_clock = []  # stack of callables


def _shim_time():
    return _clock[-1]() if _clock else _real_time()


def _shim_time_ns():
    return round(_clock[-1]() * 1e9) if _clock else _real_time_ns()


time.time, time.time_ns = _shim_time, _shim_time_ns


def _shim_broken_down(real):
    def fn(secs=None):
        return real(_shim_time() if secs is None else secs)

    return fn


time.gmtime, time.localtime = _shim_broken_down(time.gmtime), _shim_broken_down(time.localtime)
_real_gettime = time.clock_gettime
time.clock_gettime = lambda clk: _shim_time() if clk == time.CLOCK_REALTIME else _real_gettime(clk)
_RealDT = datetime.datetime


class _DTMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _RealDT)


class FakeDateTime(_RealDT, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        return _RealDT.fromtimestamp(_shim_time(), tz)

    @classmethod
    def utcnow(cls):
        _RealDT.utcnow()  # for its deprecation warning
        return _RealDT.fromtimestamp(_shim_time(), datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return _RealDT.fromtimestamp(_shim_time())


@contextlib.contextmanager
def scripted_clock(fn):
    """Within the block the system clock is *fn()* (seconds since the epoch)."""
    _clock.append(fn)
    datetime.datetime = FakeDateTime
    try:
        yield
    finally:
        _clock.pop()
        if not _clock:
            datetime.datetime = _RealDT


sys.path.insert(0, os.path.join(REPO, "src"))
if not any("site-packages" in p and p.startswith("/opt/venv") for p in sys.path):
    sys.path.append("/opt/venv/lib/python3.12/site-packages")
import importlib.metadata as _md  # noqa: E402

try:
    _md.version("vblf")
except _md.PackageNotFoundError:
    _orig_version = _md.version
    _md.version = lambda n: "0.3.1" if n == "vblf" else _orig_version(n)

import vblf  # noqa: E402

if not os.path.realpath(vblf.__file__).startswith(os.path.realpath(REPO) + "/"):
    raise HarnessError(f"imported {vblf.__file__}, not from {REPO}")

import vblf.can  # noqa: E402,F401
import vblf.constants as C  # noqa: E402,F401
import vblf.ethernet  # noqa: E402,F401
import vblf.flexray  # noqa: E402,F401
import vblf.general as G  # noqa: E402
import vblf.lin  # noqa: E402,F401
import vblf.tp_diag  # noqa: E402,F401
from vblf.reader import BlfReader  # noqa: E402
from vblf.writer import BlfWriter  # noqa: E402


def scratch():
    d = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
    return d


# ---------------------------------------------------------------- object construction
@functools.lru_cache(None)
def cls_of(mod, name):
    return getattr(importlib.import_module("vblf." + mod), name)


def klass(o):
    if o["t"] == "OPAQUE":
        return G.NotImplementedObject
    k = m.KINDS[o["t"]]
    return cls_of(k.mod, k.cls)


def decode(o):
    """Library object for a model object, through the library's decoder."""
    return klass(o).unpack(m.encode(o))


def _enum(code, enum, val):
    if enum in m.ENUMS or enum in m.FLAGS:
        return getattr(C, enum)(val)
    if code == "d":
        import struct

        return struct.unpack("<d", val.to_bytes(8, "little"))[0]
    if isinstance(val, list):
        return tuple(val) if code == "9Q" else list(val)
    return val


def construct(o):
    """Library object for a model object, through the constructors only."""
    raw = m.encode(o)
    if o["t"] == "OPAQUE":
        base = G.ObjectHeaderBase(b"LOBJ", o["hs"], o["hv"], len(raw),
                                  getattr(C.ObjType, m.OBJ_NAMES.get(o["code"], "UNKNOWN")))
        return G.NotImplementedObject(G.HeaderWithBase(base), raw)
    k, v, _tail, attrs, _ = m.resolve(o)
    hv, flags, ci, ver, ts = o["h"]
    base = G.ObjectHeaderBase(b"LOBJ", 32, hv, len(raw), getattr(C.ObjType, k.name))
    hcls = G.VarObjectHeader if k.hdr == "var" else G.ObjectHeader
    header = hcls(base, C.ObjFlags(flags), ci, ver, ts)
    kw = {n: val for n, _c, val in attrs}
    nested = {}
    for n, c, e in k.fields:
        val = _enum(c, e, v[n])
        if "." in n:
            path, leaf = n.rsplit(".", 1)
            nested.setdefault(path, {})[leaf] = val
        else:
            kw[n] = val
    if nested:
        names = {"lin_bus_event": "LinBusEvent", "lin_synch_field_event": "LinSynchFieldEvent",
                 "lin_msg_descr_event": "LinMessageDescriptor",
                 "lin_timestamp_event": "LinDatabyteTimestampEvent"}
        for path in sorted(nested, key=lambda p: -p.count(".")):
            leaf = path.rsplit(".", 1)[-1]
            sub = cls_of(k.mod, names[leaf])(**nested[path])
            if "." in path:
                nested[path.rsplit(".", 1)[0]][leaf] = sub
            else:
                kw[leaf] = sub
    return cls_of(k.mod, k.cls)(header=header, **kw)


@functools.lru_cache(None)
def _own_class():
    @dataclasses.dataclass
    class OwnObject(G.ObjectWithHeader):
        """An object kind that a user of the library has added."""

        raw: bytes

        def pack(self):
            return self.header.pack() + self.raw if hasattr(self.header, "object_flags") else self.raw

    return OwnObject


def own(o):
    """An object of a user-defined kind that encodes to what *o* encodes to."""
    raw = m.encode(o)
    if o["t"] == "OPAQUE":
        base = G.ObjectHeaderBase(b"LOBJ", o["hs"], o["hv"], len(raw), C.ObjType.UNKNOWN)
        return _own_class()(G.HeaderWithBase(base), raw)
    hcls = G.VarObjectHeader if m.KINDS[o["t"]].hdr == "var" else G.ObjectHeader
    return _own_class()(hcls.unpack_from(raw, 0), raw[32:])


def attrs(x):
    """Public attributes of a library object: name -> value."""
    if dataclasses.is_dataclass(x):
        return {f.name: getattr(x, f.name) for f in dataclasses.fields(x) if not f.name.startswith("_")}
    return {k: v for k, v in vars(x).items() if not k.startswith("_")}


def has_nan(o):
    v = o.get("v", {}).get("exact_header_baudrate", 0)
    return v & 0x7FF0000000000000 == 0x7FF0000000000000 and v & 0xFFFFFFFFFFFFF != 0


# ---------------------------------------------------------------- sinks and sources
class Sink(io.BytesIO):
    """In-memory target that keeps its content after close."""

    content = None

    def close(self):
        if not self.closed:
            self.content = self.getvalue()
        super().close()


class OpSink(Sink):
    """Records every write as (offset, data)."""

    def __init__(self):
        super().__init__()
        self.ops = []

    def write(self, data):
        self.ops.append((self.tell(), bytes(data)))
        return super().write(data)


class Source(io.BytesIO):
    """In-memory source that bounds the amount of work."""

    def __init__(self, data, limit=None):
        super().__init__(data)
        self.limit = limit if limit is not None else 40 * len(data) + 4000
        self.calls = 0
        self.orig = data

    def _tick(self):
        self.calls += 1
        if self.calls > self.limit:
            raise Runaway(f"{self.calls} calls on a source of {len(self.orig)} bytes")

    def read(self, *a):
        self._tick()
        return super().read(*a)

    def readinto(self, b):
        self._tick()
        return super().readinto(b)

    def seek(self, *a):
        self._tick()
        return super().seek(*a)


class Runaway(Violation):
    pass


@contextlib.contextmanager
def memory_limit(extra):
    """At most *extra* more bytes of address space."""
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    size = int(pathlib.Path("/proc/self/statm").read_text().split()[0]) * resource.getpagesize() + extra
    resource.setrlimit(resource.RLIMIT_AS, (size if hard < 0 else min(size, hard), hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


# ---------------------------------------------------------------- whole-file helpers
def write_log(objs, level, bufsize, sink=None, close=True):
    """Write library objects; -> (writer, sink)."""
    sink = sink if sink is not None else Sink()
    w = BlfWriter(sink, compression_level=level, buffer_size=bufsize)
    for o in objs:
        w.write(o)
    if close:
        w.close()
    return w, sink


def drain(reader, limit):
    """All remaining objects; more than *limit* is a violation."""
    out = []
    for obj in reader:
        out.append(obj)
        if len(out) > limit:
            fail(f"more than the {limit} objects stored")
    return out


def read_all(data, limit, what="reading"):
    with lib(what):
        r = BlfReader(Source(data))
        return drain(r, limit)


def describe(o):
    return f"{o['t']}({m.osize(o)} bytes)"


def same_objects(got, objs, what="", prefix=False, eq=None):
    """got (library objects) must be exactly objs (model objects), or a prefix of them."""
    for i, g in enumerate(got):
        if i >= len(objs):
            fail(f"{what}: {len(got)} objects, only {len(objs)} expected; extra {type(g).__name__}")
        try:
            m.check_object(g, objs[i])
        except m.Mismatch as e:
            raise Violation(f"{what}: object {i} of {len(objs)} ({describe(objs[i])}): {e}") from None
        if eq is not None and not has_nan(objs[i]) and not (g == eq[i]):
            fail(f"{what}: object {i} ({describe(objs[i])}) is not equal to the one written")
    if not prefix and len(got) != len(objs):
        fail(f"{what}: {len(got)} objects delivered, {len(objs)} expected; first missing"
             f" {describe(objs[len(got)])}")


def open_fds(path):
    """File descriptors of this process that refer to *path*."""
    n = 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink("/proc/self/fd/" + fd) == path
        except OSError:
            pass
    return n


__all__ = [n for n in globals() if not n.startswith("__")]


NAMES = ["~log.blf", "~/log.blf", "~root", "$HOME.blf", "$HOME/a", "${HOME}", "%HOME%", "a%20b.blf", " lead", "trail ",
         "\u00fcn\u00ef.blf", "u\u0308.blf", "\udcff.blf", "sub/../x.blf", "./x", "sub//x", "-", "-x", "file:x", "a\nb", "a\tb",
         "a\\b", "*.blf", "[x].blf", "{0}", "%s", "C:x", "x.BLF", "x.blf.gz", "X.blf.", "...", "log", "nul", "'q'", '"q"',
         "a;b", "a|b", "&", "#x", "?x", "a" * 200, "sub/sub/sub/deep.blf", "\U0001f600", "\u202ex", "\ufeffx.blf",
         "x.gz", "x.blf.bz2", "x.xz", "x.zip", "x.zst", "x.asc", "x.mf4", "x.log", "x.blf~", ".blf", ".x", "x.tar.gz", "x.BLF.GZ", "http:x"]


class elsewhere:  # noqa: N801
    """A fresh working directory with a few sub-directories, and HOME elsewhere, for one case."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(dir=scratch())
        self.old, self.home = os.getcwd(), os.environ.get("HOME")
        for d in ("work/sub/sub/sub", "work/~", "work/$HOME", "home"):
            os.makedirs(os.path.join(self.dir, d))
        os.environ["HOME"] = os.path.join(self.dir, "home")
        os.chdir(os.path.join(self.dir, "work"))
        return self

    def files(self):
        """Everything below the directory except other people's: relative name -> content."""
        found = {}
        for root, _dirs, names in os.walk(self.dir):
            for n in names:
                p = os.path.join(root, n)
                with open(p, "rb") as f:
                    found[os.path.relpath(p, os.path.join(self.dir, "work"))] = f.read()
        return found

    def __exit__(self, *exc):
        os.chdir(self.old)
        if self.home is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = self.home
        shutil.rmtree(self.dir, ignore_errors=True)


class BlockFile:
    """A file of several GiB in little memory: equal blocks are kept once.  *ops* are the written ranges."""

    BLOCK = 1 << 16

    def __init__(self):
        self.blocks, self.seen, self.end, self.pos, self.closed, self.ops = [], {}, 0, 0, False, []

    def write(self, data):
        data = memoryview(data).cast("B")
        n, size, pos = len(data), self.BLOCK, self.pos
        self.ops.append((pos, n))
        at = 0
        while at < n:
            i, off = divmod(pos + at, size)
            part = bytes(data[at : at + size - off])
            while len(self.blocks) <= i:
                self.blocks.append(b"")
            if len(part) < size:
                old = self.blocks[i].ljust(off, b"\0")
                part, step = old[:off] + part + old[off + len(part):], len(part)
            else:
                step = size
            self.blocks[i] = self.seen.setdefault(part, part) if len(part) == size else part
            at += step
        self.pos = pos + n
        self.end = max(self.end, self.pos)
        return n

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else (self.pos + off if whence == 1 else self.end + off)
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        stop = self.end if n is None or n < 0 else min(self.end, self.pos + n)
        out = []
        while self.pos < stop:
            i, off = divmod(self.pos, self.BLOCK)
            part = self.blocks[i][off : off + stop - self.pos]
            out.append(part)
            self.pos += len(part)
        return out[0] if len(out) == 1 else b"".join(out)

    def close(self):
        self.closed = True
