"""Worker of C26: runs sessions in a process whose environment differs from the usual one.

argv: <mode> <fd to read cases from> <fd to write results to>.  The in-process part of the
environment (*mode*) is set up here; the rest (variables, options, closed streams) by the parent.
"""
import hashlib
import json
import os
import sys

mode, fin, fout = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
if mode == "nocwd":
    import tempfile

    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    os.chdir(d)
    os.rmdir(d)
if mode.startswith("anyvar"):

    class Anything(type(os.environ)):
        """To code of the library, every environment variable is set."""

        def _mine(self):
            f = sys._getframe(2)
            while f and f.f_code.co_filename.endswith(("/os.py", "<frozen os>", "_collections_abc.py", "<frozen _collections_abc>")):
                f = f.f_back
            return f is not None and "/vblf/" in f.f_code.co_filename.replace(os.sep, "/")

        def get(self, key, default=None):
            return mode[6:] if self._mine() else super().get(key, default)

        def __getitem__(self, key):
            return mode[6:] if self._mine() else super().__getitem__(key)

        def __contains__(self, key):
            return self._mine() or super().__contains__(key)

    os.environ.__class__ = Anything
import typing_extensions  # noqa: E402,F401 - its warnings are not the library's business

fault = None
try:
    from harness.vb import (  # noqa: E402
        BlfReader, BlfWriter, C, G, Sink, Source, attrs, construct, decode, own, same_objects, scripted_clock)
except Exception as e:  # noqa: BLE001
    fault = f"{type(e).__name__}: {e}"
from harness import core, model as m  # noqa: E402
import asyncio  # noqa: E402
import contextvars  # noqa: E402
import datetime  # noqa: E402
import gc  # noqa: E402
import signal  # noqa: E402
import threading  # noqa: E402
import warnings  # noqa: E402

SCRATCH = os.environ["VERIF_SCRATCH"]


def deep(x):
    """Everything public in a library object as plain text."""
    if isinstance(x, (int, float, str, bytes, bytearray)) or x is None:
        return f"{type(x).__name__}:{bytes(x).hex() if isinstance(x, (bytes, bytearray)) else int(x) if isinstance(x, int) else repr(x)}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(map(deep, x)) + "]"
    if hasattr(type(x), "__dataclass_fields__") or hasattr(x, "__dict__"):
        return type(x).__name__ + "{" + ",".join(f"{k}={deep(v)}" for k, v in sorted(attrs(x).items())) + "}"
    return type(x).__name__


def elsewhere():
    if mode == "chdir":
        os.chdir("/")


def sha(x):
    return hashlib.sha256(x if isinstance(x, bytes) else x.encode("utf-8", "surrogatepass")).hexdigest()[:20]


def attempt(fn, *a):
    try:
        fn(*a)
    except Exception as e:  # noqa: BLE001
        return type(e).__name__
    return "accepted"


def steps(case, tag):
    """The session as a generator of parts; each part yields (label, value)."""
    objs = core.load(case["objs"])
    lo = [(decode, construct, own)[case["via"]](o) for o in objs]
    path = os.path.join(SCRATCH, f"env{os.getpid()}{tag}.blf")
    given = path
    if mode == "chdir":
        os.chdir(SCRATCH)
        given = os.path.basename(path)
    w = BlfWriter(given, compression_level=case["lv"], buffer_size=case["buf"])
    elsewhere()
    yield None
    refused = []
    for i, o in enumerate(lo):
        w.write(o)
        if i == case["bad"]:
            x = decode({"t": "OPAQUE", "code": 300, "hs": 32, "hv": 1, "body": ["pat", b"x", 20]})
            x.header.base.object_size += 8
            refused.append(attempt(w.write, x))
            x.header.base.object_size = -1
            refused.append(attempt(w.write, x))
        yield None
    w.close()
    yield "size mismatch, impossible size", refused
    yield "write after close", [attempt(w.write, o) for o in lo[:1]]
    with open(path, "rb") as f:
        data = f.read()
    yield "file", [len(data), sha(data)]
    if mode == "chdir":
        os.chdir(SCRATCH)
    wr = m.Written(data)
    m.match_stream(wr.stream(), [m.encode(o) for o in objs], aligned=False)
    with BlfReader(given) as r:
        got = []
        elsewhere()
        for o in r:
            got.append(o)
            yield None
        stats = deep(r.file_statistics)
    os.unlink(path)
    same_objects(got, objs, "reading")
    yield "statistics", stats
    yield "objects", [sha(deep(o)) for o in got]
    yield "bytes again", [sha(o.pack()) for o in got]
    yield "equal", [a == b for a, b in zip(got, lo)] if case["via"] != 2 else []
    b = bytearray(data)
    if len(b) > 150 and case["flip"]:
        b[144 + case["flip"] % (len(b) - 144)] ^= 0xFF
    hurt = bytes(b[: case["cut"] % (len(b) + 1)] if case["cut"] else b)
    n = 0
    try:
        for o in BlfReader(Source(hurt)):
            n += 1
            if n > 10000:
                break
        end = "end"
    except Exception as e:  # noqa: BLE001
        end = type(e).__name__
    yield "damaged log", [n, end]
    yield "bad arguments", [attempt(BlfWriter, 5), attempt(BlfReader, 5), attempt(BlfWriter, Sink(), 0, 0),
                            attempt(BlfWriter, Sink(), 0, -1)]
    t = datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds=case["us"])
    st = G.SystemTime.from_datetime(t)
    yield "times", [deep(st), str(st.to_datetime())]
    yield "codes", [deep(f(case["code"])) for f in (C.ObjType.from_int, C.AppId.from_int, C.Compression.from_int)]


def threaded(fn):
    res = []

    def body():
        try:
            res.append((fn(), None))
        except BaseException as e:  # noqa: BLE001
            res.append((None, e))

    t = threading.Thread(target=body)
    t.start()
    t.join()
    if res[0][1] is not None:
        raise res[0][1]
    return res[0][0]


def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        try:
            res = {"ok": fn()}
        except BaseException as e:  # noqa: BLE001
            res = {"error": f"{type(e).__name__}: {e}"}
        with os.fdopen(w, "wb") as f:
            f.write(json.dumps(res).encode())
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        got = f.read()
    os.waitpid(pid, 0)
    res = json.loads(got or b'{"error": "the child ended"}')
    if "error" in res:
        raise core.Violation(res["error"])
    return res["ok"]


def relay(parts, n=0):
    """The parts, handed on to a child process time and again; the parents only wait."""
    out = []
    end = object()
    while True:
        if n in (2, 3, 5, 8, 13, 21, 34):
            return out + forked(lambda: relay(parts, -n))
        x = next(parts, end)
        n = abs(n) + 1
        if x is end:
            return out
        if x is not None:
            out.append(list(x))


def run(case):
    if mode == "relay":
        return relay(steps(case, ""))
    if mode == "contexts":  # every single step in a context of its own
        return labelled(steps(case, ""), lambda fn: contextvars.Context().run(fn))
    if mode == "handover":  # every single step in another thread
        return labelled(steps(case, ""), threaded)
    if mode == "thread":  # the whole session in a thread that is not the main one
        return threaded(lambda: labelled(steps(case, "")))
    if mode == "busy":  # other threads work on the same session at the same time
        res = {}
        ts = [threading.Thread(target=lambda k=k: res.__setitem__(k, guarded(case, f"t{k}"))) for k in range(3)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for k in range(3):
            if isinstance(res[k], str):
                raise core.Violation(f"thread {k}: {res[k]}")
        if not res[0] == res[1] == res[2]:
            raise core.Violation("threads that do the same get different results")
        return res[0]
    if mode == "loop":
        async def main():
            return labelled(steps(case, ""))

        return asyncio.run(main(), debug=True)
    if mode == "fork":
        labelled(steps(case, ""))
        return forked(lambda: labelled(steps(case, "")))
    if mode == "deep":  # little stack left
        old = sys.getrecursionlimit()

        def down(n):
            return down(n - 1) if n else labelled(steps(case, ""))

        sys.setrecursionlimit(len_stack() + 40 + 160)
        try:
            return down(40)
        finally:
            sys.setrecursionlimit(old)
    return labelled(steps(case, ""))


def len_stack():
    f, n = sys._getframe(), 0
    while f:
        f, n = f.f_back, n + 1
    return n


def guarded(case, tag):
    try:
        return labelled(steps(case, tag))
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"


def labelled(gen, turn=None):
    """Collect what the generator yields: None or a label followed by its value."""
    out = []
    end = object()
    while True:
        x = turn(lambda: next(gen, end)) if turn else next(gen, end)
        if x is end:
            return out
        if x is not None:
            out.append(list(x))


def setup():
    if mode == "gc":
        gc.set_threshold(1, 1, 1)
    elif mode == "nogc":
        gc.disable()
    elif mode == "signals":
        signal.signal(signal.SIGALRM, lambda *_: None)
        signal.setitimer(signal.ITIMER_REAL, 0.0007, 0.0007)
    elif mode == "masked":
        signal.pthread_sigmask(signal.SIG_BLOCK, set(signal.Signals) - {signal.SIGKILL, signal.SIGSTOP})
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        signal.signal(signal.SIGPIPE, signal.SIG_DFL)
    elif mode == "trace":
        def trace(*_):
            return trace

        sys.settrace(trace)
        threading.settrace(trace)
    elif mode == "profile":
        sys.setprofile(lambda *_: None)
    elif mode == "closed":
        sys.stdin.close()
        sys.stdout.close()
        sys.stderr.close()
    elif mode == "user":
        import tempfile

        global SCRATCH
        old, SCRATCH = SCRATCH, ""
        os.chdir(tempfile.mkdtemp(dir=old))
        try:
            os.chmod(".", 0o777)
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            with open("probe", "wb"):
                pass
        except OSError:  # no such right here: goes on as it is
            SCRATCH = old
    elif mode == "busy":
        sys.setswitchinterval(1e-6)
    elif mode == "files":
        import resource

        resource.setrlimit(resource.RLIMIT_NOFILE, (len(os.listdir("/proc/self/fd")) + 6,) * 2)
    elif mode == "odd":
        import decimal
        import random

        os.umask(0o077)
        decimal.getcontext().prec = 1
        decimal.getcontext().traps[decimal.Inexact] = True
        random.seed(0)
        sys.set_int_max_str_digits(640)
        sys.stdout = sys.stderr = None
        sys.argv = []
        del sys.modules["__main__"].__file__  # as in an interactive or embedded interpreter
        sys.path[:] = [p for p in sys.path if p]
    elif mode == "logging":
        import logging

        class Strict(logging.Handler):
            def emit(self, record):
                record.getMessage()

        logging.getLogger().addHandler(Strict())
        logging.getLogger().setLevel(1)
        logging.getLogger("vblf").setLevel(1)


def main():
    setup()
    fi, fo = os.fdopen(fin, "rb"), os.fdopen(fout, "wb")
    for line in fi:
        case = json.loads(line)
        caught = []
        try:
            if fault:
                raise core.Violation(f"import fails: {fault}")
            with scripted_clock(lambda t=case["t"]: t):
                if mode == "warnings":
                    with warnings.catch_warnings(record=True) as caught:
                        warnings.simplefilter("always")
                        res = {"ok": run(case)}
                else:
                    res = {"ok": run(case)}
            caught = [f"{x.category.__name__}: {x.message}" for x in caught
                      if not issubclass(x.category, ResourceWarning)]
            if caught:
                res = {"error": f"warns: {caught[0]}"}
        except Exception as e:  # noqa: BLE001
            import traceback

            res = {"error": f"{type(e).__name__}: {e}",
                   "trace": traceback.format_exc()[-1500:]}
        fo.write(json.dumps(res).encode() + b"\n")
        fo.flush()


main()
