"""C21: failing underlying file."""
import contextlib
import io
import os
import pathlib
import random
import resource

from hypothesis import strategies as st

from .. import gen, model as m, session
from ..core import Search, Sweep, Violation, expect, fail, lib
from ..vb import BlfReader, BlfWriter, Source, open_fds, scratch

META = {
    "level": "fault_enumeration",
    "technique": "property-based testing with fault injection: failures enumerated over file operations and stored bytes",
    "rule": "One case = a write session and a list of faults (which operation on the file fails - the n-th, n-th"
            " write, seek, tell, close -, how much of the data is stored, for how many operations, which"
            " exception).  Sweeps put a fault at every operation of small sessions with every kind of partial"
            " store.  The failure must reach the caller of that call, what was stored must read as an unaltered"
            " prefix that holds all objects readable before the call, and if a later close succeeds the log must"
            " hold every object whose write returned, in order, and only objects passed to write.  Real files"
            " are driven into EFBIG through RLIMIT_FSIZE and into ENOSPC through /dev/full."
            "  Non-trivial: a fault fired and at least one object had been accepted.",
    "assumptions": ["a failing operation stores none or a proper prefix of its data",
                    "a short write (a proper prefix stored, its length returned, nothing raised) is repeated with the"
                    " rest, as unbuffered files require",
                    "an object whose write call failed may be in the log or not"],
}


class Boom(Exception):
    pass


class Interrupt(KeyboardInterrupt):
    pass


EXC = {"Interrupt": lambda: Interrupt("while the file was busy"), "Memory": lambda: MemoryError("out of memory"),
       "ENOSPC": lambda: OSError(28, "No space left on device"), "EIO": lambda: OSError(5, "I/O error"),
       "EPIPE": lambda: BrokenPipeError(32, "broken pipe"), "EINTR": lambda: InterruptedError(4, "interrupted"),
       "Timeout": lambda: TimeoutError("timeout"), "Boom": lambda: Boom("custom failure"),
       "ValueError": lambda: ValueError("failure reported as ValueError"),
       "EAGAIN": lambda: BlockingIOError(11, "busy", 0), "Runtime": lambda: RuntimeError("failure reported as RuntimeError"),
       "EDQUOT": lambda: OSError(122, "quota"), "EACCES": lambda: PermissionError(13, "denied"),
       "ECONNRESET": lambda: ConnectionResetError(104, "reset"), "bare": lambda: OSError(),
       "Unsupported": lambda: io.UnsupportedOperation("not now"), "EOF": lambda: EOFError("failure reported as EOFError")}


class FaultFile(io.RawIOBase):
    """In-memory file whose operations fail as planned."""

    def __init__(self, faults, dead_on_close, short=False):
        super().__init__()
        self.short = short
        self.pending = None
        self.shorts = 0
        self.data = bytearray()
        self.pos = 0
        self.faults = faults
        self.counts = {"any": 0, "write": 0, "seek": 0, "tell": 0, "close": 0, "flush": 0}
        self.left = [f["for"] for f in faults]
        self.fired = []
        self.log = []
        self.dead_on_close = dead_on_close
        self._armed = True
        self.died = False

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def _fault(self, op, data=None):
        self.counts["any"] += 1
        self.counts[op] += 1
        self.log.append((op, len(data) if data is not None else 0))
        if data and self.pending is not None:
            e, self.pending = self.pending, None
            self.fired.append(e)
            raise e
        for i, f in enumerate(self.faults):
            if f["op"] not in ("any", op) or self.counts[f["op"]] <= f["n"] or not self.left[i]:
                continue
            self.left[i] -= 1
            if f["exc"] == "SHORT":  # a part is stored and counted, nothing is raised
                if not data or len(data) < 2:
                    continue
                k = f["keep"] if isinstance(f["keep"], int) else int(f["keep"] * len(data))
                k = max(1, min(k, len(data) - 1))
                self._store(data[:k])
                self.shorts += 1
                return k
            if data:
                k = min(f["keep"] if isinstance(f["keep"], int) else int(f["keep"] * len(data)), len(data) - 1)
                self._store(data[:k])
                if k and self.short:
                    # like the operating system: a short write first, the failure on the next one
                    self.pending = EXC[f["exc"]]()
                    return k
            e = EXC[f["exc"]]()
            self.fired.append(e)
            raise e
        return None

    def _store(self, data):
        if self.pos > len(self.data):
            self.data.extend(bytes(self.pos - len(self.data)))
        self.data[self.pos : self.pos + len(data)] = data
        self.pos += len(data)

    def write(self, b):
        b = bytes(b)
        k = self._fault("write", b)
        if k is not None:
            return k
        self._store(b)
        return len(b)

    def readinto(self, b):
        chunk = self.data[self.pos : self.pos + len(b)]
        b[: len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)

    def seek(self, off, whence=0):
        self._fault("seek")
        self.pos = off if whence == 0 else (self.pos if whence == 1 else len(self.data)) + off
        return self.pos

    def tell(self):
        self._fault("tell")
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        del self.data[size:]
        return size

    def flush(self):
        if self._armed and not self.closed:
            self._fault("flush")

    def close(self):
        if self.closed or not self._armed:
            return
        try:
            self._fault("close")
        except BaseException:
            if self.dead_on_close:
                self._armed = False
                self.died = True
                super().close()
            raise
        self._armed = False
        super().close()


KINDS = ["ENOSPC", "Boom", "EIO", "ValueError", "Interrupt", *sorted(set(EXC) - {"ENOSPC", "Boom", "EIO", "ValueError", "Interrupt"})]
faults = st.builds(
    lambda op, n, keep, f, e: {"op": op, "n": n, "keep": keep, "for": f, "exc": e},
    st.sampled_from(["write", "write", "write", "any", "any", "seek", "tell", "close"]), st.one_of(st.integers(1, 5), st.integers(1, 16), st.integers(0, 4)),
    st.one_of(st.sampled_from([0, 0, 1, 4, 16, 31, 32, 33, 40, 143]), st.floats(0, 1).map(lambda x: round(x, 3))),
    st.one_of(st.just(1), st.just(1), st.integers(1, 4), st.just(1 << 30)),
    st.sampled_from(["ENOSPC", "ENOSPC", "EIO", "EPIPE", "EINTR", "Timeout", "Boom", "ValueError", "Interrupt", "Memory", "SHORT", "SHORT", "EAGAIN", "Runtime",
                     "EDQUOT", "EACCES", "ECONNRESET", "bare", "Unsupported", "EOF"]))


@st.composite
def cases(draw):
    c = draw(session.sessions(8, tgt=False))
    total = gen.stream_sizes(c["objs"])
    c["buf"] = max(c["buf"], total // 60, 1)
    c["faults"] = draw(st.lists(faults, min_size=1, max_size=3))
    c["dead"] = draw(st.integers(0, 1))
    c["stage"] = draw(st.sampled_from(["raw", "raw", "raw", "buffered"]))
    if c["stage"] == "buffered":  # the io module repeats interrupted calls for ever
        c["faults"] = [{**f, "exc": "EIO"} if f["exc"] in ("EINTR", "EAGAIN") else f for f in c["faults"]]
    c["retry"] = draw(st.integers(1, 8))
    c["stop"] = draw(st.booleans())
    return c


def sweep(tier):
    K = session.opaque_of(40, fill=b"\x11")
    L = session.opaque_of(57, fill=b"LOBJ")
    for objs, buf in (([K, L, K, L], 60), ([K, L, K], 1 << 17), ([L, session.opaque_of(400, fill=b"x"), K], 128), ([K], 40),
                      ([], 64)):
        for lv in (0, 6):
            ops = dry(objs, lv, buf)
            for n, (op, size) in enumerate(ops):
                if op == "write" and size > 1:
                    for keep in sorted({1, 4, 16, 31, 32, 33, size // 2, size - 1}):
                        if keep < size:
                            for times in (1, 3, 1 << 30):
                                yield {"objs": objs, "lv": lv, "buf": buf, "via": 0, "dead": 0, "retry": 5, "stop": False,
                                       "faults": [{"op": "write", "n": n, "keep": keep, "for": times, "exc": "SHORT"}],
                                       "stage": "raw"}
                for keep in sorted({0, 1, 4, 16, 31, 32, 33, size // 2, size - 1}) if op == "write" else (0,):
                    if op == "write" and not 0 <= keep < size:
                        continue
                    for times in (1, 2, 1 << 30):
                        for dead in (0, 1) if op == "close" else (0,):
                            for stop in (False, True):
                                yield {"objs": objs, "lv": lv, "buf": buf, "via": 0, "dead": dead, "retry": 5, "stop": stop,
                                       "faults": [{"op": "any", "n": n, "keep": keep, "for": times,
                                                   "exc": KINDS[(n + keep + len(objs)) % len(KINDS)]}],
                                       "stage": "raw"}
    for lim in (0, 1, 100, 143, 144, 145, 200, 300, 1000, 5000, 8191, 8192, 8193, 20000, 131072, 140000, 200000):
        for lv in (0, 6):
            for buf in (64, 1000, 131072):
                for how in ("path", "file", "unbuffered"):
                    yield {"real": "fsize", "limit": lim, "lv": lv, "buf": buf, "n": 120 if buf < 1000 else 3000,
                           "how": how}
    for lim in (150, 500, 1000, 5000):
        for lv in (0, 6):
            for how in ("path", "file", "unbuffered"):
                yield {"real": "fsize", "limit": lim, "lv": lv, "buf": 131072, "n": 100, "how": how}
    for lv in (0, 6):
        for n in (0, 1, 50, 5000):
            for how in ("path", "file", "unbuffered"):
                yield {"real": "full", "lv": lv, "buf": 4096, "n": n, "how": how}


def dry(objs, lv, buf):
    f = FaultFile([], 0)
    try:
        w = BlfWriter(f, compression_level=lv, buffer_size=buf)
        for o in session.lib_objects(objs):
            w.write(o)
        w.close()
    except (Exception, Interrupt):  # noqa: BLE001 - the real run reports it
        pass
    return f.log


def stir_sweep(tier):
    """Faults at file operations of any kind and number, in sessions of any shape."""
    rnd = random.Random(21)
    for i in range(1500 if tier == "quick" else 60000):
        c = session.stir(i + (1 << 23), 12, 5)
        c.pop("tgt")
        c["buf"] = max(c["buf"], gen.stream_sizes(c["objs"]) // 60, 1)
        stage = rnd.choice(["raw", "raw", "raw", "buffered"])
        kinds = [*KINDS, *["SHORT"] * 6] if stage == "raw" else [k for k in KINDS if k not in ("EINTR", "EAGAIN")]
        c["faults"] = [{"op": rnd.choice(["write", "write", "write", "any", "any", "seek", "tell", "close"]),
                        "n": session.logint(rnd, 6) - rnd.randrange(2),
                        "keep": rnd.choice([0, rnd.randrange(150), round(rnd.random(), 3)]),
                        "for": rnd.choice([1, 1, rnd.randrange(1, 5), 1 << 30]), "exc": rnd.choice(kinds)}
                       for _ in range(rnd.choice([1, 1, 2, 3]))]
        yield {**c, "dead": rnd.randrange(2), "stage": stage, "retry": rnd.randrange(1, 9), "stop": rnd.random() < 0.5}


def sweeps():
    return [Sweep("every operation", sweep), Sweep("stir", stir_sweep)]


def searches():
    return [Search("faults", cases(), 3000, 300000)]


def readable(data, limit, what, errors_ok=False):
    """Objects that can be read from an image; decoding errors at the end only if *errors_ok*."""
    got = []
    if len(data) < 144:
        return got
    try:
        for o in BlfReader(Source(bytes(data))):
            got.append(o)
            if len(got) > limit:
                fail(f"{what}: more than the {limit} objects passed to write")
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        if not errors_ok:
            raise Violation(f"{what}: reading raised {type(e).__name__}: {e}") from e
    return got


def subsequence(got, raws, required, what):
    """got must be raws with some of the not required ones left out."""
    j = 0
    for i, g in enumerate(got):
        while j < len(raws) and raws[j] != g:
            if j in required:
                fail(f"{what}: object {j} (write returned normally) is missing, altered or out of order")
            j += 1
        if j == len(raws):
            fail(f"{what}: object {i} was never written")
        j += 1
    for k in range(j, len(raws)):
        if k in required:
            fail(f"{what}: object {k} (write returned normally) is missing")


def check(name, case, rec):
    if "real" in case:
        real(case, rec)
        return
    mo = session.expand(case["objs"])
    with lib("preparing objects"):
        lo = session.lib_objects(mo, case.get("via", 0))
    memo = {}
    raws = [memo.setdefault(id(o), m.encode(o)) for o in mo]
    buffered = case["stage"] == "buffered"
    ff = FaultFile(case["faults"], case["dead"], buffered)
    target = io.BufferedRandom(ff, 64) if buffered else ff
    tried, good = [], set()
    try:
        def call(fn, what):
            """Run a library call; -> whether it returned normally."""
            before = bytes(ff.data)
            fired = len(ff.fired)
            err = None
            try:
                fn()
            except (Exception, Interrupt) as e:  # noqa: BLE001
                err = e
            now = ff.fired[fired:]
            if err is None:
                expect(not now or buffered, lambda: f"{what}: {now[0]!r} of the file did not reach the caller")
                return True
            if not ff.fired:
                raise Violation(f"{what} raised {type(err).__name__}: {err}") from err
            if not buffered and now:
                chain, e = [], err
                while e is not None:
                    chain.append(e)
                    e = e.__cause__ or e.__context__
                expect(any(x in chain for x in now), lambda: f"{what}: raised {err!r} instead of the file's {now[-1]!r}")
            # what had been stored is still there
            pre = readable(before, len(tried), what + " (before)", True)
            post = readable(ff.data, len(tried), what, len(ff.fired) > 1)
            subsequence([o.pack() for o in post], [raws[k] for k in tried], set(), what + ", file after the failure")
            got = [o.pack() for o in post]
            expect(got[: len(pre)] == [o.pack() for o in pre] or any(f["op"] in ("any", "tell") for f in case["faults"])
                   and len(ff.fired) > 1, f"{what}: {len(pre)} objects were readable before the failure, now {len(got)}")
            return False

        state = {}

        def opening():
            state["w"] = BlfWriter(target, compression_level=session.level_of(case), buffer_size=case["buf"])

        if not call(opening, "opening"):
            rec.label("opening failed")
            return
        w = state["w"]
        for i, o in enumerate(lo):
            tried.append(i)
            if call(lambda o=o: w.write(o), f"write number {i}"):
                good.add(i)
            elif case["stop"]:
                break
            if ff.died or (buffered and target.closed):
                break
        done = False
        for k in range(case["retry"]):
            if ff.died or (buffered and target.closed):
                break
            if call(w.close, f"close attempt {k + 1}"):
                done = True
                break
        if done and not target.closed:
            fail("close returned normally, but the file is open")
        surfaced = bool(ff.fired)
        if done and not (buffered and surfaced and case["dead"]):
            data = bytes(ff.data)
            what = f"log closed after {len(ff.fired)} failures"
            got = [o.pack() for o in readable(data, len(tried), what)]
            subsequence(got, [raws[k] for k in tried], {tried.index(k) for k in good}, what)
            h = m.parse_file_header(data)
            expect(len(good) <= h["count"] <= len(tried), f"{what}: header counts {h['count']} objects,"
                   f" {len(good)} accepted, {len(tried) - len(good)} failed")
            expect(h["count"] == len(got), f"{what}: header counts {h['count']} objects, the log holds {len(got)}")
            rec.label("recovered" if surfaced else "no fault reached")
        else:
            got = [o.pack() for o in readable(ff.data, len(tried), "abandoned log", len(ff.fired) > 1)]
            subsequence(got, [raws[k] for k in tried], set(), "abandoned log")
            rec.label("never closed")
        if ff.shorts and good:
            rec.hit("short writes")
        if surfaced and good:
            rec.hit(*(f"{o} failed" for o in {f["op"] for f in case["faults"]} if o != "any"))
        rec.label(case["stage"])
    finally:
        ff._armed = False
        try:
            target.close()
        except (Exception, Interrupt):  # noqa: BLE001
            pass


def real(case, rec):
    """Failures of the operating system on real files."""
    obj = session.lib_objects([session.opaque_of(104, fill=b"q")])[0]
    raw = obj.pack()
    n = case["n"]
    if case["real"] == "full":
        errs = 0
        target = "/dev/full" if case["how"] == "path" else open(  # noqa: SIM115
            "/dev/full", "wb", buffering=0 if case["how"] == "unbuffered" else -1)
        try:
            w = BlfWriter(target, compression_level=case["lv"], buffer_size=case["buf"])
            for _ in range(n):
                try:
                    w.write(obj)
                except OSError:
                    errs += 1
            try:
                w.close()
            except OSError:
                errs += 1
        except OSError:
            errs += 1
        finally:
            try:
                getattr(target, "close", int)()
            except OSError:
                pass
        expect(errs, f"/dev/full ({case['how']}): no call reported the failure")
        rec.hit("/dev/full")
        return
    target = path = os.path.join(scratch(), "limited.blf")
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    ok = bad = 0
    w = None
    closed = False
    try:
        resource.setrlimit(resource.RLIMIT_FSIZE, (case["limit"], hard))
        try:
            how = case.get("how", "path")
            if how != "path":
                target = open(path, "wb", buffering=0 if how == "unbuffered" else -1)  # noqa: SIM115
            w = BlfWriter(target, compression_level=case["lv"], buffer_size=case["buf"])
            for _ in range(n):
                try:
                    w.write(obj)
                    ok += 1
                except OSError:
                    bad += 1
                    break
            if not bad:
                w.close()
                closed = True
        except OSError:
            bad += 1
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        with open(path, "rb") as f:
            data = f.read()
        got = [o.pack() for o in readable(data, ok + bad, "file limited in size", True)]
        expect(all(g == raw for g in got), "file limited in size: altered objects")
        if closed:
            expect(len(got) == n, f"close succeeded with {len(got)} of {n} objects in the file")
        else:
            expect(bad, "nothing reported the failure")
            if w is not None and open_fds(os.path.realpath(path)):
                w.close()
                data = pathlib.Path(path).read_bytes()
                got = [o.pack() for o in readable(data, ok + bad, "file after recovery")]
                expect(ok <= len(got) <= ok + bad, f"after recovery {len(got)} objects, {ok} accepted, {bad} failed")
            rec.hit("file size limit " + how)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        if target is not path:
            with contextlib.suppress(OSError):
                target.close()
        if os.path.exists(path):
            os.unlink(path)
